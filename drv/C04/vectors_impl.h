#include "vf.h"
#include <estd/vector.h>
#include "heap_alloc.h"
#include <vector>
#include <type_traits>
using namespace vf;
namespace {
struct Tri { unsigned char a, b, c; Tri() = default; Tri(int v) : a(v), b(v >> 8), c(a ^ b) {} bool operator==(const Tri& o) const { return a == o.a && b == o.b && c == o.c; } };
// may be copied bit by bit but never assigned
struct Fixed { const int v; Fixed(int v = 0) : v(v) {} Fixed(const Fixed&) = default; Fixed& operator=(const Fixed&) = delete; bool operator==(const Fixed& o) const { return v == o.v; } };
inline int num(const Fixed& f) { return f.v; }
inline int num(int v) { return v; } inline int num(long long v) { return (int)v; } inline int num(const Tri& t) { return t.a | t.b << 8; } inline int num(const Tracked& t) { return t.get(); }

template <class T_, size_t N> struct V1 { typedef T_ T; typedef estd::layer1::vector<T, N> V; static constexpr int kind = 1; Boxed<V> b; size_t cap = N; explicit V1(Ctx& c) { c.op("layer1::vector<%zu bytes,%zu>", sizeof(T), N); } V& v() { return *b; } };
template <class T_, size_t N> struct V2 { typedef T_ T; typedef estd::layer2::vector<T, N> V; static constexpr int kind = 2; Raw<T> r; Boxed<V> b; size_t cap = N; explicit V2(Ctx& c) : r(N), b(r.data()) { c.op("layer2::vector<%zu bytes,%zu>", sizeof(T), N); } V& v() { return *b; } };
template <class T_> struct V3 { typedef T_ T; typedef estd::layer3::vector<T> V; static constexpr int kind = 3; Raw<T> r; Boxed<V> b; size_t cap; explicit V3(Ctx& c) : r(1 + c.rng.below(c.rng.coin() ? 8 : 300)), b(r.data(), r.n), cap(r.n) { c.op("layer3::vector<%zu bytes>[%zu]", sizeof(T), r.n); } V& v() { return *b; } };
template <class T_> struct VH { typedef T_ T; typedef estd::vector<T, HeapAlloc<T>> V; static constexpr int kind = 4; Boxed<V> b; size_t cap; explicit VH(Ctx& c) : b(), cap(c.rng.coin() ? 400 : 900) { c.op("vector<%zu bytes> heap", sizeof(T)); } ~VH() { heap_release_all(); } V& v() { return *b; } };

template <class P> struct Hist
{
    typedef typename P::T T; typedef typename P::V V;
    static constexpr bool tracked = std::is_same<T, Tracked>::value;
    Ctx& c; std::vector<int> m;
    int fresh = 0;
    explicit Hist(Ctx& c_) : c(c_) {}
    int next() { return c.rng.coin() ? (int)c.rng.below(1000) : 10000 + fresh++; }
    bool allocated(V& v) { return P::kind != 4 || v.capacity() != 0; }
    void verify(V& v, const std::vector<int>& r, const char* what)
    {
        VF_EQ((size_t)v.size(), r.size(), what);
        VF_EQ((bool)v.empty(), r.empty(), what);
        if(!allocated(v)) { VF_REQ(r.empty(), "%s: nothing allocated for %zu elements", what, r.size()); return; }
        const T* d = v.clock();
        for(size_t i = 0; i < r.size(); ++i) VF_REQ(num(d[i]) == r[i], "%s: element %zu is %d, expected %d", what, i, num(d[i]), r[i]);
        v.cunlock();
    }
    void walk(V& v)
    {
        if(!allocated(v)) return;
        size_t i = 0;
        for(auto it = v.begin(); it != v.end(); ++it, ++i) { VF_REQ(i < m.size(), "iteration past the end"); VF_REQ(num((const T&)*it) == m[i], "iteration: element %zu", i); }
        VF_EQ(i, m.size(), "iterated");
        if(m.size()) { size_t k = c.rng.below(m.size());
            VF_EQ(num((const T&)v[k]), m[k], "operator[]"); VF_EQ(num((const T&)v.front()), m.front(), "front"); VF_EQ(num((const T&)v.back()), m.back(), "back"); VF_EQ(num((const T&)v.at(k)), m[k], "at"); }
    }
    void run(P& p)
    {
        V& v = p.v();
        verify(v, m, "fresh vector");
        unsigned steps = 8 + c.rng.below(53), changed = 0;
        // sizes one edit at a time does not reach: near the capacity, and around the limits of small counters
        if(p.cap > 60 && c.rng.chance(1, 3))
        {
            size_t n = c.rng.coin() ? p.cap - c.rng.below(8) : 248 + c.rng.below(16); if(n > p.cap) n = p.cap; c.op("fill to %zu", n);
            while(m.size() < n) { int x = next(); v.push_back(T(x)); m.push_back(x); } verify(v, m, "filled"); if(n > 256) VF_EV("more than 256 elements");
        }
        for(unsigned s = 0; s < steps; ++s)
        {
            size_t room = p.cap - m.size(); auto before = m; size_t cap0 = v.capacity();
            unsigned op = c.rng.below(20);
            if(!allocated(v) && op > 5) op = c.rng.below(6);
            switch(op)
            {
                case 0: case 1: if(room) { int x = next(); c.op("push_back(%d)", x); const T e(x); v.push_back(e); m.push_back(x); } break;
                case 2: if(room) { int x = next(); c.op("push_back(move %d)", x); v.push_back(T(x)); m.push_back(x); } break;
                case 3: case 4: if(room) { int x = next(); c.op("emplace_back(%d)", x); VF_EQ(num((const T&)v.emplace_back(x)), x, "emplace_back result"); m.push_back(x); } break;
                case 5: if(P::kind == 4 && c.rng.chance(1, 2)) { size_t n = m.size() + c.rng.below(40); if(!n) n = 1; c.op("reserve(%zu)", n); if(n >= v.capacity()) v.reserve(n); VF_REQ(v.capacity() >= n, "capacity after reserve"); } break;
                case 6: case 7: if(room) { size_t k = c.rng.below(m.size() + 1); int x = next(); c.op("insert(%zu,%d)", k, x); const T e(x); v.insert(v.begin() + k, e); m.insert(m.begin() + k, x); VF_EV("insert"); } break;
                case 8: if(room) { size_t k = c.rng.below(m.size() + 1); int x = next(); c.op("insert(%zu,move %d)", k, x); v.insert(v.begin() + k, T(x)); m.insert(m.begin() + k, x); VF_EV("insert"); } break;
                case 9: { size_t k = c.rng.below(m.size() + 1), n = c.rng.below((room < 6 ? room : 6) + 1); std::vector<int> xs; for(size_t i = 0; i < n; ++i) xs.push_back(next());
                    c.op("insert(%zu,range of %zu)", k, n); std::vector<T> src(xs.begin(), xs.end()); const T* q = src.data();
                    v.insert(v.begin() + k, q, q + n); m.insert(m.begin() + k, xs.begin(), xs.end()); VF_EV("insert"); break; }
                case 10: case 11: if(m.size()) { size_t k = c.rng.below(m.size()); c.op("erase(%zu)", k); auto it = v.erase(v.begin() + k); m.erase(m.begin() + k); VF_EV("erase");
                    if(k < m.size()) VF_EQ(num((const T&)*it), m[k], "erase result"); else VF_REQ(it == v.end(), "erase result is end"); } break;
                case 12: if(m.size()) { c.op("pop_back"); v.pop_back(); m.pop_back(); } break;
                case 13: if(m.size() && c.rng.chance(1, 2)) { size_t n = c.rng.below(m.size() + 1); c.op("resize(%zu)", n); v.resize(n); m.resize(n); } break;
                case 14: if(m.size()) { size_t k = c.rng.below(m.size()); int x = next(); c.op("[%zu]=%d", k, x); if constexpr(std::is_copy_assignable<T>::value) { if(c.rng.coin()) (T&)v[k] = T(x); else *(v.begin() + k) = T(x); m[k] = x; } } break;
                case 15: if(c.rng.chance(1, 4)) { c.op("clear"); v.clear(); m.clear(); } break;
                case 16: if(room && m.size()) { size_t k = c.rng.below(m.size()); c.op("push_back(own %zu)", k); v.push_back(*(const T*)(v.lock() + k)); m.push_back(int(m[k])); VF_EV("own element as argument"); } break;
                case 17: if(room && m.size()) { size_t k = c.rng.below(m.size()), at = c.rng.below(m.size() + 1); c.op("insert(%zu, own %zu)", at, k); v.insert(v.begin() + at, *(const T*)(v.lock() + k)); m.insert(m.begin() + at, int(m[k])); VF_EV("own element as argument"); } break;
                case 18: if constexpr(!tracked) { size_t n = c.rng.below((p.cap < 12 ? p.cap : 12) + 1); if(P::kind == 4 && !n) n = 1; std::vector<int> xs; for(size_t i = 0; i < n; ++i) xs.push_back(next());
                        std::vector<T> src(xs.begin(), xs.end()); const T* q = src.data();
                        if(c.rng.coin() || n > room) { c.op("assign(%zu)", n); v.assign(q, q + n); m = xs; }
                        else if constexpr(std::is_copy_assignable<T>::value) { c.op("append(%zu)", n); v.append(q, n); m.insert(m.end(), xs.begin(), xs.end()); } } break;
                default:
                    if constexpr(P::kind == 1)
                    {
                        if(c.rng.coin()) { c.op("copy"); V d(v); verify(d, m, "copy"); if(m.size()) { if constexpr(std::is_copy_assignable<T>::value) (T&)d[0] = T(-5); } if(m.size() < p.cap) d.push_back(T(0)); verify(v, m, "source of copy"); VF_EV("copy"); }
                        else if(c.rng.coin()) { c.op("copy assign"); V d; d.push_back(T(4)); d = v; verify(d, m, "copy-assigned"); v = d; VF_EV("copy"); }
                        else { c.op("move there and back"); V d(std::move(v)); verify(d, m, "moved"); v.clear(); v = std::move(d); VF_EV("move"); }
                    }
                    else if(P::kind == 4 && m.size()) { c.op("shrink_to_fit"); v.shrink_to_fit(); }
            }
            VF_EV("edit"); if(tracked) VF_EV("tracked edit");
            if(m.size() == p.cap) VF_EV("full");
            if(P::kind == 4 && v.capacity() > cap0) VF_EV("heap growth");
            if(m != before) ++changed;
            verify(v, m, "content");
            if(tracked) VF_LEDGER(m.size());
            VF_REQ(P::kind == 4 || (size_t)v.capacity() == p.cap, "capacity");
            if(c.rng.chance(1, 4)) walk(v);
            uint64_t h = m.size(); for(int x : m) h = mix(h ^ (uint64_t)x);
            c.state(h); c.mark(h);
        }
        if(changed >= 4) c.nt();
        if(P::kind != 1) { if(allocated(v)) v.clear(); if(tracked) VF_LEDGER(0); }
    }
};
template <class P> void history(Ctx& c)
{
    Ledger::reset();
    { P p(c); Hist<P> h(c); if(P::kind == 1 && p.cap < 2) {} h.run(p); }
    if(std::is_same<typename P::T, Tracked>::value) { c.op("drop"); VF_LEDGER(0); }
}
}
