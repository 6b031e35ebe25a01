#include "vf.h"
#include <estd/queue.h>
#include <estd/algorithm.h>
#include "heap_alloc.h"
#include <vector>
#include <deque>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
using namespace vf;
namespace {
struct Rec { short key; short id; int pad; Rec() = default; Rec(int v) : key(v >> 4), id(v & 15), pad(~v) {} };
int num(int v) { return v; }
int num(unsigned char v) { return v; }
int num(const Rec& r) { return r.pad == ~(r.key * 16 + r.id) ? r.key * 16 + r.id : -777; }
int num(const Tracked& t) { return t.get(); }
struct RecLess { bool operator()(const Rec& a, const Rec& b) const { return a.key < b.key; } };
bool fn_mod(const int& a, const int& b) { return a % 17 < b % 17; }
bool fn_rev(const int& a, const int& b) { return a > b; }
struct Away { int centre; bool operator()(int a, int b) const { return std::abs(a - centre) > std::abs(b - centre); } };   // nearest to centre on top
struct TLess { bool operator()(const Tracked& a, const Tracked& b) const { return a.get() < b.get(); } };

// one history over any priority queue.  cmp: reference comparator over ints (true: lower priority)
template <class T, class PQ, class Cmp> void pq_hist(Ctx& c, PQ& q, size_t cap, Cmp cmp, bool drop_checked = true)
{
    constexpr bool tr = std::is_same<T, Tracked>::value;
    std::multiset<int> m; unsigned steps = 8 + c.rng.below(80), done = 0; bool dup = false; int range = c.rng.coin() ? 6 : 900;
    if(cap > 100 && c.rng.coin()) steps += 300;
    auto verify = [&] {
        VF_EQ((size_t)q.size(), m.size(), "size"); VF_EQ((bool)q.empty(), m.empty(), "empty");
        if(tr) VF_LEDGER(m.size());
        if(m.empty()) return;
        int top = num((const T&)q.top()); VF_REQ(m.count(top), "top %d is not an element", top);
        for(int x : m) VF_REQ(!cmp(top, x), "top %d although %d has priority", top, x);
        std::vector<int> v; const T* d = q.container().clock(); for(size_t i = 0; i < m.size(); ++i) v.push_back(num(d[i])); q.container().cunlock();
        for(size_t i = 1; i < v.size(); ++i) VF_REQ(!cmp(v[(i - 1) / 2], v[i]), "heap order broken at %zu of %zu", i, v.size());
        VF_REQ(std::multiset<int>(v.begin(), v.end()) == m, "elements lost or invented");
    };
    verify();
    for(unsigned s = 0; s < steps; ++s)
    {
        unsigned op = c.rng.below(10);
        if(m.size() < cap && (op < 5 || (cap > 100 && op < 7)))
        {
            int x = (int)c.rng.below(range); if(m.count(x)) { dup = true; VF_EV("duplicates"); }
            c.op("push(%d)", x);
            switch(c.rng.below(4)) { case 0: { const T e(x); q.push(e); break; } case 1: q.push(T(x)); break; case 2: q.emplace(x); break;
                default: { bool called = false; q.emplace_with_notify([&](T& e) { called = true; if(num(e) != x) called = false; }, x); VF_REQ(called, "notification before insertion"); } }
            m.insert(x); VF_EV("pq push");
        }
        else if(m.size() && op == 9)
        {
            auto it = m.begin(); std::advance(it, c.rng.below(m.size())); int x = *it; c.op("erase_if(== %d)", x);
            VF_REQ(q.erase_if([x](const T& e) { return num(e) == x; }), "erase_if result"); m.erase(it); VF_EV("pq erase"); dup = true;
        }
        else if(op == 8) { c.op("erase_if(absent)"); VF_REQ(!q.erase_if([](const T& e) { return num(e) == 30000; }), "erase_if of absent element"); }
        else if(m.size())
        {
            int top = num((const T&)q.top()); c.op("pop(%d)", top); q.pop(); auto it = m.find(top); VF_REQ(it != m.end(), "popped value"); m.erase(it); VF_EV("pq pop");
        }
        if(m.size() > 128) VF_EV("large index");
        if(tr) VF_EV("tracked");
        verify(); ++done;
        uint64_t h = 0; for(int x : m) h = mix(h ^ x); c.mark(h); c.state(h);
    }
    // drain: comparator order
    int last = 0; bool first = true;
    while(m.size()) { int t = num((const T&)q.top()); VF_REQ(first || !cmp(last, t), "drained %d after %d", t, last); first = false; last = t; auto it = m.find(t); VF_REQ(it != m.end(), "drained value"); m.erase(it); q.pop(); verify(); }
    if(done >= 8 && dup) c.nt();
}
template <class T, size_t N, class C, class R> void pq_l1(Ctx& c)
{
    Ledger::reset();
    { c.op("layer1::priority_queue<%zu bytes,%zu>", sizeof(T), N); Boxed<estd::layer1::priority_queue<T, N, C>> q; pq_hist<T>(c, *q, N, R()); }
    if(std::is_same<T, Tracked>::value) VF_LEDGER(0);
}
struct RecRef { bool operator()(int a, int b) const { return (a >> 4) < (b >> 4); } };
}
VF_REG("l1<int,10,less>", 60, pq_l1<int, 10, estd::less<int>, std::less<int>>);
VF_REG("l1<int,7,greater>", 60, pq_l1<int, 7, estd::greater<int>, std::greater<int>>);
VF_REG("l1<int,250,less>", 20, pq_l1<int, 250, estd::less<int>, std::less<int>>);
VF_REG("l1<int,130,greater>", 20, pq_l1<int, 130, estd::greater<int>, std::greater<int>>);
VF_REG("l1<rec,20>", 60, pq_l1<Rec, 20, RecLess, RecRef>);
VF_REG("l1<tracked,15>", 80, pq_l1<Tracked, 15, TLess, std::less<int>>);
VF_GROUP_W(function_pointer, 40) { typedef bool (*F)(const int&, const int&); F f = c.rng.coin() ? fn_mod : fn_rev; c.op("%s", f == fn_mod ? "mod" : "rev"); Boxed<estd::layer1::priority_queue<int, 24, F>> q(f); VF_EV("stateful comparator"); pq_hist<int>(c, *q, 24, f); }
VF_GROUP_W(stateful, 40) { Away a{(int)c.rng.below(900)}; c.op("nearest %d", a.centre); Boxed<estd::layer1::priority_queue<int, 40, Away>> q(a); VF_EV("stateful comparator"); pq_hist<int>(c, *q, 40, a); }
VF_GROUP_W(heap_backed, 40) { estd::priority_queue<int, estd::vector<int, HeapAlloc<int>>> q; int a = (int)c.rng.below(50); q.push(a); q.pop(); pq_hist<int>(c, q, 300, std::less<int>()); heap_release_all(); }
VF_GROUP_W(assign, 30)
{
    Away a{(int)c.rng.below(100)}, b{(int)c.rng.below(100)}; c.op("assign nearest %d := nearest %d", a.centre, b.centre);
    typedef estd::layer1::priority_queue<int, 30, Away> Q; Boxed<Q> x(a), y(b); std::vector<int> v;
    for(size_t n = c.rng.below(30); n > 0; --n) x->push((int)c.rng.below(100));
    for(size_t n = c.rng.below(30); n > 0; --n) { int k = (int)c.rng.below(100); y->push(k); v.push_back(k); c.mark(k); }
    bool mv = c.rng.coin(); if(mv) *x = std::move(*y); else *x = *y;
    if(v.size() < 30) { int k = (int)c.rng.below(100); x->push(k); v.push_back(k); }
    std::stable_sort(v.begin(), v.end(), [&](int p, int q) { return std::abs(p - b.centre) < std::abs(q - b.centre); });
    VF_EQ((size_t)x->size(), v.size(), "size after assignment");
    for(size_t i = 0; i < v.size(); ++i) { int t = (int)x->top(); VF_REQ(std::abs(t - b.centre) == std::abs(v[i] - b.centre), "drain after assignment: %d at %zu", t, i); x->pop(); }
    VF_EV("pq assign"); c.nt();
}
// ---- raw ranges
namespace {
template <class V, class T, class Cmp, class Ref> void raw_heap(Ctx& c, V& v, Cmp cmp, Ref ref, int k)
{
    std::vector<int> in; for(size_t i = 0; i < v.size(); ++i) in.push_back(num((const T&)v[i]));
    auto ints = [&](size_t n) { std::vector<int> r; for(size_t i = 0; i < n; ++i) r.push_back(num((const T&)v[i])); return r; };
    auto sorted = [](std::vector<int> r) { std::sort(r.begin(), r.end()); return r; };
    auto is_heap = [&](size_t n, int ar) { for(size_t i = 1; i < n; ++i) if(ref(num((const T&)v[(i - 1) / ar]), num((const T&)v[i]))) return false; return true; };
    size_t n = v.size();
    c.op("make_heap of %zu, arity %d", n, k);
    estd::make_heap(v.begin(), v.end(), cmp, k); VF_EV("heap made"); if(k > 2) VF_EV("heap k>2"); if(n == 0) VF_EV("empty heap"); if(n == 1) VF_EV("single element heap");
    VF_REQ(is_heap(n, k), "not a %d-ary heap after make_heap", k); VF_REQ(sorted(ints(n)) == sorted(in), "make_heap is not a permutation");
    if(n >= 3) c.nt();
    uint64_t h = k; for(int x : in) h = mix(h ^ x); c.mark(h); c.state(h);
    if(c.rng.coin() || n == 0)
    {   // drain with the k-ary heap object
        typedef decltype(v.begin()) It;
        estd::internal::heap<It, Cmp> hp(v.begin(), v.end(), k, cmp);
        VF_EQ(hp.size(), n, "heap size"); VF_EQ(hp.empty(), n == 0, "heap empty");
        std::vector<int> rest = sorted(in); size_t left = n; unsigned budget = 3 * n + 2;
        while(left && budget--)
        {
            int f = num((const T&)hp.front()); for(int x : rest) VF_REQ(!ref(f, x), "front %d although %d is better", f, x);
            if(left < n && c.rng.chance(1, 3)) { int x = (int)c.rng.below(200); c.op("push(%d)", x); hp.push(T(x)); rest.push_back(x); ++left; VF_EV("heap pushed"); }
            else { c.op("pop"); hp.pop(); auto it = std::find(rest.begin(), rest.end(), f); VF_REQ(it != rest.end(), "front is an element"); rest.erase(it); --left; VF_EV("heap popped"); VF_REQ(num((const T&)v[left]) == f, "pop moves the front behind the heap"); }
            VF_EQ(hp.size(), left, "heap size"); VF_REQ(is_heap(left, k), "heap order after the operation"); VF_REQ(sorted(ints(left)) == sorted(rest), "elements conserved");
        }
    }
    else if(k == 2)
    {   // free functions: pop to sort, push to rebuild
        size_t left = n;
        while(left) { int f = num((const T&)v[0]); estd::pop_heap(v.begin(), v.begin() + left, cmp); --left; VF_EV("heap popped");
            VF_REQ(num((const T&)v[left]) == f, "pop_heap leaves the former front last: %d instead of %d", num((const T&)v[left]), f);
            VF_REQ(is_heap(left, 2), "heap order after pop_heap"); VF_REQ(sorted(ints(n)) == sorted(in), "pop_heap conserves elements"); }
        for(size_t i = 1; i < n; ++i) VF_REQ(!ref(num((const T&)v[i]), num((const T&)v[i - 1])), "heap sort order");
        while(left < n) { ++left; estd::push_heap(v.begin(), v.begin() + left, cmp); VF_EV("heap pushed"); VF_REQ(is_heap(left, 2), "heap order after push_heap"); VF_REQ(sorted(ints(n)) == sorted(in), "push_heap conserves elements"); }
    }
}
size_t pick_n(Ctx& c) { return c.rng.chance(1, 6) ? c.rng.below(3) : c.rng.chance(1, 6) ? c.rng.below(150) : c.rng.below(20); }
template <class T> struct Arr { Raw<T> r; explicit Arr(size_t n) : r(n) {} T* begin() { return r.p; } T* end() { return r.p + r.n; } size_t size() const { return r.n; } T& operator[](size_t i) { return r.p[i]; } };
}
VF_GROUP(raw_array) { size_t n = pick_n(c); Arr<int> a(n); int rg = c.rng.coin() ? 5 : 1000; for(size_t i = 0; i < n; ++i) a[i] = (int)c.rng.below(rg); int k = c.rng.coin() ? 2 : (int)c.rng.range(2, 9);
    if(c.rng.coin()) raw_heap<Arr<int>, int>(c, a, estd::less<int>(), std::less<int>(), k); else raw_heap<Arr<int>, int>(c, a, estd::greater<int>(), std::greater<int>(), k); }
VF_GROUP(raw_bytes) { size_t n = pick_n(c); Arr<unsigned char> a(n); for(size_t i = 0; i < n; ++i) a[i] = (unsigned char)c.rng.below(100); raw_heap<Arr<unsigned char>, unsigned char>(c, a, [](unsigned char x, unsigned char y) { return x < y; }, std::less<int>(), c.rng.coin() ? 2 : (int)c.rng.range(2, 9)); }
VF_GROUP(std_vector) { size_t n = pick_n(c); std::vector<Rec> a; for(size_t i = 0; i < n; ++i) a.push_back(Rec((int)c.rng.below(300))); raw_heap<std::vector<Rec>, Rec>(c, a, RecLess(), RecRef(), c.rng.coin() ? 2 : (int)c.rng.range(2, 9)); }
VF_GROUP_W(std_deque, 50) { size_t n = pick_n(c); std::deque<int> a; for(size_t i = 0; i < n; ++i) a.push_back((int)c.rng.below(300)); raw_heap<std::deque<int>, int>(c, a, estd::less<int>(), std::less<int>(), c.rng.coin() ? 2 : (int)c.rng.range(2, 9)); }
VF_GROUP_W(tracked_range, 60) { Ledger::reset(); { size_t n = pick_n(c); std::vector<Tracked> a; for(size_t i = 0; i < n; ++i) a.emplace_back((int)c.rng.below(300)); VF_EV("tracked"); raw_heap<std::vector<Tracked>, Tracked>(c, a, TLess(), std::less<int>(), c.rng.coin() ? 2 : (int)c.rng.range(2, 5)); VF_LEDGER(n); } VF_LEDGER(0); }
VF_GROUP_W(library_vector, 60) { Boxed<estd::layer1::vector<int, 200>> a; size_t n = pick_n(c); for(size_t i = 0; i < n; ++i) a->push_back((int)c.rng.below(300)); if(n > 128) VF_EV("large index"); raw_heap<estd::layer1::vector<int, 200>, int>(c, *a, estd::less<int>(), std::less<int>(), c.rng.coin() ? 2 : (int)c.rng.range(2, 9)); }
VF_GROUP_W(move_only, 20)
{
    std::vector<std::unique_ptr<int>> a; size_t n = 1 + pick_n(c); std::vector<int> r; for(size_t i = 0; i < n; ++i) { r.push_back((int)c.rng.below(300)); a.emplace_back(new int(r.back())); c.mark(r.back()); }
    auto lt = [](const std::unique_ptr<int>& x, const std::unique_ptr<int>& y) { return *x < *y; };
    c.op("move-only heap of %zu", n); estd::make_heap(a.begin(), a.end(), lt); std::sort(r.rbegin(), r.rend());
    for(size_t i = 0; i < n; ++i) { VF_EQ(*a.front(), r[i], "top"); estd::pop_heap(a.begin(), a.end(), lt); VF_EQ(*a.back(), r[i], "popped"); a.pop_back(); }
    VF_EV("heap popped"); c.nt();
}
