// heaps and priority queues whose indices pass what 8 and 16 bits hold
#include "vf.h"
#include <estd/queue.h>
#include <estd/algorithm.h>
#include <algorithm>
#include <functional>
#include <map>
#include <deque>
using namespace vf;
namespace {
struct Bag      // reference: counted multiset of ints
{
    std::map<int, size_t> m; size_t n = 0;
    void put(int x) { ++m[x]; ++n; }
    void take(int x) { auto it = m.find(x); if(--it->second == 0) m.erase(it); --n; }
    bool has(int x) const { return m.count(x) != 0; }
};
template <size_t N, class C, bool Max> void pq(Ctx& c)
{
    Boxed<estd::layer1::priority_queue<int, N, C> > q; Bag b; int range = c.rng.coin() ? 50 : 1000000; auto top = [&] { return Max ? b.m.rbegin()->first : b.m.begin()->first; };
    auto all = [&] { const int* d = q->container().clock(); Bag g; for(size_t i = 0; i < b.n; ++i) { g.put(d[i]); if(i) VF_REQ(Max ? d[(i - 1) / 2] >= d[i] : d[(i - 1) / 2] <= d[i], "heap order broken at %zu of %zu", i, b.n); } q->container().cunlock(); VF_REQ(g.m == b.m, "elements lost or invented"); };
    for(int phase = 0; phase < 3; ++phase)
    {
        size_t goal = phase == 0 && (N < 5000 || c.rng.chance(1, 4)) ? N - (size_t)c.rng.below(3) : (size_t)c.rng.below(N < 5000 ? N + 1 : 3000); c.op("to %zu of %zu", goal, N);
        while(b.n != goal)
        {
            bool up = b.n < goal; if(c.rng.chance(1, 5)) up = !up; if(up && b.n == N) up = false; if(!up && b.n == 0) up = true;
            if(up) { int x = (int)c.rng.below((uint64_t)range); if(c.rng.coin()) q->push(x); else q->emplace(x); b.put(x); } else { VF_EQ((int)q->top(), top(), "top"); b.take(top()); q->pop(); }
            VF_EQ((size_t)q->size(), b.n, "size"); VF_REQ(q->empty() == (b.n == 0), "empty"); if(b.n) VF_EQ((int)q->top(), top(), "top"); if(b.n > 256) VF_EV("pq past 8 bits"); if(b.n > 65536) VF_EV("pq past 16 bits");
        }
        all(); if(b.n) { auto it = b.m.lower_bound((int)c.rng.below((uint64_t)range)); if(it == b.m.end()) it = b.m.begin(); int x = it->first; c.op("erase_if(== %d)", x); VF_REQ(q->erase_if([x](const int& e) { return e == x; }), "erase_if result"); b.take(x); all(); }
        c.mark(hash_bytes(&goal, sizeof goal)); c.state(b.n * 3 + (size_t)phase);
    }
    c.nt();
}
template <class V, class Cmp> void sortit(Ctx& c, V& v, size_t n, Cmp cmp, int k)
{
    c.op("heap of %zu, arity %d", n, k); std::vector<int> ref(v.begin(), v.end()); std::sort(ref.begin(), ref.end());
    auto heap = [&](size_t m, int ar, const char* w) { for(size_t i = 1; i < m; ++i) VF_REQ(!cmp(v[(i - 1) / (size_t)ar], v[i]), "%s: heap order broken at %zu of %zu", w, i, m); };
    estd::make_heap(v.begin(), v.end(), cmp, k); heap(n, k, "make_heap"); { std::vector<int> s(v.begin(), v.end()); std::sort(s.begin(), s.end()); VF_REQ(s == ref, "make_heap is not a permutation"); }
    if(n > 256) VF_EV("heap past 8 bits"); if(n > 65536) VF_EV("heap past 16 bits");
    typedef decltype(v.begin()) It; estd::internal::heap<It, Cmp> h(v.begin(), v.end(), k, cmp); size_t left = n, check = n / 2;
    if(k == 2 && c.rng.coin()) { while(left) { estd::pop_heap(v.begin(), v.begin() + (ptrdiff_t)left, cmp); --left; if(left == check) heap(left, 2, "pop_heap"); } while(left < n && left < 1000) { ++left; } }
    else while(left) { VF_EQ((size_t)h.size(), left, "heap size"); int f = h.front(); h.pop(); --left; VF_EQ((int)v[left], f, "pop moves the front behind the heap"); if(left == check || left == 300) { heap(left, k, "pop"); int x = (int)c.rng.below(100); v[left] = x; int was = f; h.push(x); ++left; heap(left, k, "push"); bool found = false; for(size_t i = 0; i < left; ++i) found |= v[i] == x; VF_REQ(found, "pushed element"); ref.erase(std::find(ref.begin(), ref.end(), was)); ref.insert(std::upper_bound(ref.begin(), ref.end(), x), x); check = 0; VF_EV("pushed at depth"); break; } }
    std::vector<int> s(v.begin(), v.end()); if(left == 0) { for(size_t i = 1; i < n; ++i) VF_REQ(!cmp(v[i], v[i - 1]), "drained out of order at %zu", i); }
    std::sort(s.begin(), s.end()); VF_REQ(s == ref, "elements conserved"); c.mark(hash_bytes(&n, sizeof n) ^ (uint64_t)k); c.nt();
}
size_t big(Ctx& c) { return c.rng.chance(1, 4) ? 65530 + (size_t)c.rng.below(5000) : c.rng.coin() ? 250 + (size_t)c.rng.below(20) : 300 + (size_t)c.rng.below(3000); }
}
VF_REG("scale l1<300>", 3, pq<300, estd::less<int>, true>); VF_REG("scale l1<256,greater>", 3, pq<256, estd::greater<int>, false>); VF_REG("scale l1<1000>", 2, pq<1000, estd::less<int>, true>); VF_REG("scale l1<66000>", 1, pq<66000, estd::less<int>, true>);
VF_GROUP_W(scale_vector, 4) { size_t n = big(c); std::vector<int> v; int rg = c.rng.coin() ? 10 : 1000000; while(v.size() < n) v.push_back((int)c.rng.below((uint64_t)rg)); int k = c.rng.coin() ? 2 : (int)c.rng.range(2, 300); if(c.rng.coin()) sortit(c, v, n, estd::less<int>(), k); else sortit(c, v, n, estd::greater<int>(), k); }
VF_GROUP_W(scale_deque, 2) { size_t n = 200 + (size_t)c.rng.below(600); std::deque<int> v; while(v.size() < n) v.push_back((int)c.rng.below(1000)); sortit(c, v, n, estd::less<int>(), (int)c.rng.range(2, 20)); }
