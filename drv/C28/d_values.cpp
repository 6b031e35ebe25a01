// optional-like values, tuples, delegates, owners, pools, supplied memory, time, locks
#include "d_quiet.h"
#include <estd/optional.h>
#include <estd/variant.h>
#include <estd/expected.h>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/memory.h>
#include <estd/chrono.h>
#include <estd/mutex.h>
#include <estd/ratio.h>
#include <estd/internal/memory/pool.h>
#include <estd/exp/memory/memory_pool2.h>
#include <estd/internal/bip/buffer.h>
namespace {
struct Pod { int v; char pad[12]; Pod(int x = 0) : v(x) { memset(pad, x, sizeof pad); } operator int() const { for(char p : pad) if(p != (char)v) return -1; return v; } bool operator==(const Pod& o) const { return v == o.v; } };
template <class T> void edit_opt(estd::optional<T>& o, Rng& r) { for(unsigned k = 1 + (unsigned)r.below(6); k > 0; --k) { T x((int)r.below(100)); switch(r.below(5)) { case 0: o = x; break; case 1: o.emplace(x); break; case 2: o.reset(); break; case 3: o = estd::nullopt; break; default: if(o) *o = x; } } }
template <class O> uint64_t dig_opt(const O& o) { H h; h(o.has_value()); if(o.has_value()) h((int)*o); return h.v; }
struct Add { int k; int total; int operator()(int x) { total += x; return k + total; } };
struct Big { int k; char pad[100]; Big(int k) : k(k) { memset(pad, k, sizeof pad); } int operator()(int x) { for(char p : pad) if(p != (char)k) return -1; return k * x; } };
int twice(int x) { return 2 * x; }
struct Obj { int t; int sum(int x) { return t += x; } Obj(int v = 0) : t(v) {} };
}
VF_GROUP_W(maybes, 60)
{
    independent<estd::optional<int>>(c, "optional", edit_opt<int>, dig_opt<estd::optional<int>>); independent<estd::optional<Pod>>(c, "optional object", edit_opt<Pod>, dig_opt<estd::optional<Pod>>);
    typedef estd::layer1::optional<int, -1> L; independent<L>(c, "sentinel optional", [](L& o, Rng& r) { for(int k = 0; k < 4; ++k) if(r.chance(3, 4)) o = (int)r.below(100); else o.reset(); }, dig_opt<L>);
    typedef estd::variant<int, Pod, double> V; independent<V>(c, "variant", [](V& v, Rng& r) { for(int k = 0; k < 4; ++k) { int x = (int)r.below(100); switch(r.below(4)) { case 0: v = x; break; case 1: v.emplace<1>(x); break; case 2: v.emplace<2>(x * 0.5); break; default: v = Pod(x); } } }, [](const V& v) { H h; h(v.index()); if(auto p = estd::get_if<0>(&v)) h(*p); if(auto p = estd::get_if<1>(&v)) h((int)*p); if(auto p = estd::get_if<2>(&v)) h(*p * 4); return h.v; });
    typedef estd::expected<int, short> E; independent<E>(c, "expected", [](E& e, Rng& r) { for(int k = 0; k < 4; ++k) { int x = (int)r.below(100); switch(r.below(3)) { case 0: e = E(x); break; case 1: e = E(estd::unexpect_t(), (short)x); break; default: if(e.has_value()) *e = x; } } }, [](const E& e) { H h; h(e.has_value()); if(e.has_value()) h(*e); else h(e.error()); return h.v; });
    typedef estd::tuple<int, Pod, char> T; independent<T>(c, "tuple", [](T& t, Rng& r) { estd::get<0>(t) = (int)r.below(99); estd::get<1>(t) = Pod((int)r.below(99)); estd::get<2>(t) = (char)r.below(99); }, [](const T& t) { H h; h(estd::get<0>(t)); h((int)estd::get<1>(t)); h(estd::get<2>(t)); return h.v; });
    typedef estd::pair<int, Pod> P; independent<P>(c, "pair", [](P& t, Rng& r) { t.first = (int)r.below(99); t.second = Pod((int)r.below(99)); }, [](const P& t) { H h; h(t.first); h((int)t.second); return h.v; });
}
namespace {
template <template <class> class Impl> void delegate(Ctx& c, const char* what)
{
    typedef estd::detail::function<int(int), Impl<int(int)>> F; int k = (int)c.rng.below(50), v = (int)c.rng.below(50), got[5] = {}; c.op("%s %d %d", what, k, v); c.nt();
    QUIET(what, { typename F::template model<Add> m(Add{ k, 0 }); typename F::template model<Big> b{ Big(k) }; typename F::template model<int (*)(int)> p(&twice); F f(&m); got[0] = f(v); F g(f); got[1] = g(v); f = F(&b); got[2] = f(v); g = f; got[3] = g(v); F h(&p); got[4] = h(v); f = nullptr; });
    VF_REQ(got[0] == k + v && got[1] == k + 2 * v && got[2] == k * v && got[3] == k * v && got[4] == 2 * v, "results %d %d %d %d %d", got[0], got[1], got[2], got[3], got[4]); VF_EV(what);
}
}
VF_GROUP_W(delegates, 60)
{
    delegate<estd::detail::impl::function_fnptr1>(c, "delegate with one pointer"); delegate<estd::detail::impl::function_fnptr2>(c, "delegate with two pointers"); delegate<estd::detail::impl::function_virtual>(c, "virtual delegate");
    int k = (int)c.rng.below(50), v = (int)c.rng.below(50), got[6] = {};
    QUIET("inline function", { auto i = estd::experimental::function<int(int)>::make_inline2([k](int x) { return k + x; }); typedef decltype(i) I; got[0] = i(v); I j(i); got[1] = j(v); I m(std::move(j)); got[2] = m(v); estd::detail::function<int(int)> view(m); got[3] = view(v);
        Obj o(k); typedef estd::experimental::context_function<decltype(&Obj::sum), &Obj::sum> C; C cf(&o); got[4] = cf(v); C cg(cf); got[5] = cg(v); });
    VF_REQ(got[0] == k + v && got[1] == k + v && got[2] == k + v && got[3] == k + v && got[4] == k + v && got[5] == k + 2 * v, "inline results"); VF_EV("inline function");
}
VF_GROUP_W(owners, 60)
{
    int v = (int)c.rng.below(100), got[6] = {}; uint64_t s = c.rng.next(); c.op("%d", v); c.nt(); Raw<Pod> obj(1);
    QUIET("fixed shared object", { estd::layer1::shared_ptr<Pod> m; m.construct(v); estd::layer3::shared_ptr<Pod> a(m); got[0] = (int)*a; { estd::layer3::shared_ptr<Pod> b(a); got[1] = (int)*b; got[2] = (int)m.use_count(); b = a; } m.reset(); got[3] = (int)*a; a.reset(); });
    VF_REQ(got[0] == v && got[1] == v && got[2] == 3 && got[3] == v, "owners saw %d %d %d %d", got[0], got[1], got[2], got[3]);
    QUIET("shared object elsewhere", { Pod* p = new(&obj[0]) Pod(v); estd::layer2::shared_ptr<Pod> m(p); estd::layer3::shared_ptr<Pod> a(m); got[4] = (int)*a; }); VF_EQ(got[4], v, "value"); VF_EV("owners"); (void)s;
}
VF_GROUP_W(memory, 60)
{
    uint64_t s = c.rng.next(); volatile uint64_t sink = 0; c.op("%llx", (unsigned long long)s); c.nt();
    QUIET("block pool", { estd::internal::memory::v1::pool<24, 12> p; Rng r(s); void* held[12] = {}; for(int i = 0; i < 60; ++i) { int k = (int)r.below(12); if(held[k]) { p.free(held[k]); held[k] = nullptr; } else { held[k] = p.alloc(); if(held[k]) memset(held[k], k, 24); } } sink = p.available_blocks(); }); VF_EV("block pool");
    QUIET("linked pool", { namespace m2 = estd::experimental::memory::v2; m2::memory_pool<Pod, 10, m2::pool_types::linked_list> p; Rng r(s); Pod* held[10] = {}; for(int i = 0; i < 60; ++i) { int k = (int)r.below(10); if(held[k]) { p.deallocate(held[k]); held[k] = nullptr; } else held[k] = p.allocate(); } sink = p.count_free(); }); VF_EV("linked pool");
    QUIET("relocating memory", { namespace m2 = estd::experimental::memory::v2; m2::virtual_memory<400, 8> v; Rng r(s); unsigned held[6]; bool have[6] = {}; for(int i = 0; i < 50; ++i) { int k = (int)r.below(6); if(have[k]) { v.free(held[k]); have[k] = false; } else { held[k] = v.allocate(4 + (unsigned)r.below(40)); have[k] = held[k] != (unsigned)-1; } } sink = v.total_free(); }); VF_EV("relocating memory");
    QUIET("byte ring", { estd::layer1::bipbuf<64> b; Rng r(s); unsigned char d[20]; memset(d, 7, 20); for(int i = 0; i < 40; ++i) { unsigned n = 1 + (unsigned)r.below(18); if(r.coin()) b.offer(d, n); else if(b.peek(n)) b.poll(n); } sink = b.used(); }); VF_EV("byte ring");
}
namespace { struct Mx { int held = 0; void lock() { ++held; } bool try_lock() { if(held) return false; ++held; return true; } void unlock() { --held; } }; }
VF_GROUP_W(time_and_locks, 40)
{
    int v = (int)c.rng.below(1000000); volatile uint64_t sink = 0; c.op("%d", v); c.nt(); Mx m;
    QUIET("durations and clocks", { using namespace estd::chrono; H h; milliseconds a(v); seconds b = duration_cast<seconds>(a); h(b.count()); microseconds u = a; h(u.count()); h((a + b).count()); h(a > b); auto n = steady_clock::now(); auto l = steady_clock::now(); h(l >= n); auto d = l - n; h(d.count() >= 0); hh_mm_ss<milliseconds> x(a); h(x.minutes().count()); estd::chrono::system_clock::now(); sink = h.v; }); VF_EV("time");
    QUIET("locks", { { estd::lock_guard<Mx> g(m); } { estd::unique_lock<Mx> g(m); estd::unique_lock<Mx> k(std::move(g)); k.unlock(); k.try_lock(); } { estd::unique_lock<Mx> g(m, estd::defer_lock_t{}); } }); VF_EQ(m.held, 0, "lock depth"); VF_EV("locks");
}
