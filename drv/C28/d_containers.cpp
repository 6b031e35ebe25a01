// arrays, vectors, rings, heaps, maps, sets, lists: histories and copies
#include "d_quiet.h"
#include <estd/array.h>
#include <estd/vector.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/deque.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/forward_list.h>
#include <estd/algorithm.h>
namespace {
struct Wide { int v; char pad[20]; Wide(int x = 0) : v(x) { memset(pad, x, sizeof pad); } operator int() const { for(char p : pad) if(p != (char)v) return -1; return v; } bool operator<(const Wide& o) const { return v < o.v; } bool operator>(const Wide& o) const { return v > o.v; } bool operator==(const Wide& o) const { return v == o.v; } };
template <class T, class V> void edit_vec(V& v, Rng& r, unsigned max)
{
    for(unsigned k = 1 + (unsigned)r.below(10); k > 0; --k)
    {
        unsigned n = (unsigned)v.size(); T x((int)r.below(100));
        switch(r.below(8)) { case 0: case 1: case 2: if(n < max) v.push_back(x); break; case 3: if(n < max) v.emplace_back(x); break; case 4: if(n) v.pop_back(); break; case 5: if(n < max) { auto it = v.begin(); for(unsigned i = (unsigned)r.below(n + 1); i > 0; --i) ++it; v.insert(it, x); } break; case 6: if(n) { auto it = v.begin(); for(unsigned i = (unsigned)r.below(n); i > 0; --i) ++it; v.erase(it); } break; default: if(r.chance(1, 4)) v.clear(); else if(n) v[(unsigned)r.below(n)] = x; }
    }
}
template <class T, class V> uint64_t dig_vec(const V& v) { H h; h(v.size()); h(v.empty()); for(unsigned i = 0; i < v.size(); ++i) h((int)(const T&)v[i]); for(auto it = v.begin(); it != v.end(); ++it) h((int)(const T&)*it); if(v.size()) { h((int)(const T&)v.front()); h((int)(const T&)v.back()); } return h.v; }
template <class T, class D> void edit_deque(D& d, Rng& r, unsigned max) { for(unsigned k = 1 + (unsigned)r.below(12); k > 0; --k) { T x((int)r.below(100)); switch(r.below(6)) { case 0: case 1: if(d.size() < max) d.push_back(x); break; case 2: case 3: if(d.size() < max) d.push_front(x); break; case 4: if(!d.empty()) d.pop_front(); break; default: if(!d.empty()) d.pop_back(); } } }
template <class T, class D> uint64_t dig_deque(const D& cd) { D& d = const_cast<D&>(cd); H h; h(d.size()); h(d.empty()); if(!d.empty()) { h((int)d.front()); h((int)d.back()); } for(auto it = d.begin(); it != d.end(); ++it) h((int)*it); return h.v; }
template <class T, class Q> void edit_queue(Q& q, Rng& r, unsigned max) { for(unsigned k = 1 + (unsigned)r.below(12); k > 0; --k) { if(r.below(5) < 3) { if(q.size() < max) q.push(T((int)r.below(100))); } else if(!q.empty()) q.pop(); } }
template <class T, class Q> uint64_t dig_queue(const Q& q) { H h; h(q.size()); h(q.empty()); if(!q.empty()) { h((int)(const T&)q.front()); h((int)(const T&)q.back()); } return h.v; }
template <class T, class Q> uint64_t dig_top(const Q& q) { H h; h(q.size()); h(q.empty()); if(!q.empty()) h((int)(const T&)q.top()); return h.v; }
template <class Q> struct Peek : Q { const typename Q::container_type& inner() const { return this->c; } };
template <class Q> const typename Q::container_type& inner(const Q& q) { return static_cast<const Peek<Q>&>(q).inner(); }
template <class M> void edit_map(M& m, Rng& r) { for(unsigned k = 1 + (unsigned)r.below(14); k > 0; --k) { int key = 1 + (int)r.below(30), v = (int)r.below(500); switch(r.below(6)) { case 0: case 1: m.insert({ key, v }); break; case 2: m.try_emplace(key, v); break; case 3: m.insert_or_assign(key, v); break; case 4: m.erase(key); break; default: if(r.chance(1, 6)) m.clear(); } } }
template <class M> uint64_t dig_map(const M& m) { H h; h(m.size()); h(m.empty()); for(auto it = m.begin(); it != m.end(); ++it) { h((*it).first); h((*it).second); } for(int k = 1; k < 31; ++k) { h(m.contains(k)); auto f = m.find(k); if(!(f == m.end())) h((*f).second); } return h.v; }
template <class M> void edit_set(M& m, Rng& r) { for(unsigned k = 1 + (unsigned)r.below(14); k > 0; --k) { int key = 1 + (int)r.below(30); if(r.below(5) < 3) m.insert(key); else m.erase(key); } }
template <class M> uint64_t dig_set(const M& m) { H h; h(m.size()); for(auto it = m.begin(); it != m.end(); ++it) h(*it); for(int k = 1; k < 31; ++k) h(m.contains(k)); return h.v; }
template <class T> void vecs(Ctx& c)
{
    typedef estd::layer1::vector<T, 12> V; independent<V>(c, "fixed vector", [](V& v, Rng& r) { edit_vec<T>(v, r, 12); }, [](const V& v) { return dig_vec<T>(v); });
    Raw<T> a(12), b(12); { estd::layer2::vector<T, 12> v(a.data()); for(int i = 0; i < 5; ++i) { Rng r(c.rng.next()); QUIET("vector over a buffer", edit_vec<T>(v, r, 12)); c.mark(dig_vec<T>(v)); } VF_EV("vector over a buffer"); }
    { estd::layer3::vector<T> v(b.data(), 12); for(int i = 0; i < 5; ++i) { Rng r(c.rng.next()); QUIET("vector over a sized buffer", edit_vec<T>(v, r, 12)); c.mark(dig_vec<T>(v)); } VF_EV("vector over a sized buffer"); }
}
template <class T> void rings(Ctx& c)
{
    typedef estd::layer1::deque<T, 9> D; independent<D>(c, "fixed deque", [](D& d, Rng& r) { edit_deque<T>(d, r, 8); }, [](const D& d) { return dig_deque<T>(d); });
    typedef estd::layer1::queue<T, 9> Q; struct QD { Q q; uint64_t seen = 1; }; independent<QD>(c, "fixed queue", [](QD& x, Rng& r) { if(r.coin()) while(!x.q.empty()) { x.seen = mix(x.seen ^ (uint64_t)(int)(const T&)x.q.front()); x.q.pop(); } edit_queue<T>(x.q, r, 8); }, [](const QD& x) { return dig_queue<T>(x.q) ^ x.seen; });
    typedef estd::layer1::stack<T, 9> S; independent<S>(c, "fixed stack", [](S& q, Rng& r) { edit_queue<T>(q, r, 9); }, [](const S& q) { return dig_top<T>(q) ^ dig_vec<T>(inner(q)); });
    typedef estd::layer1::priority_queue<T, 15> P; independent<P>(c, "fixed priority queue", [](P& q, Rng& r) { edit_queue<T>(q, r, 15); }, [](const P& q) { return dig_top<T>(q) ^ dig_vec<T>(inner(q)); });
}
}
VF_GROUP_W(vectors_int, 50) { vecs<int>(c); }
VF_GROUP_W(vectors_wide, 50) { vecs<Wide>(c); }
VF_GROUP_W(rings_int, 50) { rings<int>(c); }
VF_GROUP_W(rings_wide, 50) { rings<Wide>(c); }
VF_GROUP_W(maps, 60)
{
    typedef estd::layer1::unordered_map<int, int, 32> M; independent<M>(c, "fixed map", [](M& m, Rng& r) { edit_map(m, r); }, [](const M& m) { return dig_map(m); });
    typedef estd::layer1::unordered_set<int, 32> S; independent<S>(c, "fixed set", [](S& m, Rng& r) { edit_set(m, r); }, [](const S& m) { return dig_set(m); });
    typedef estd::layer2::unordered_map<int, int, 16> L; Raw<typename L::control_type> back(16); for(int i = 0; i < 16; ++i) new(&back[i]) typename L::control_type(); uint64_t seed = c.rng.next(); volatile uint64_t sink;
    QUIET("map over a buffer", { L m(back.data()); Rng r(seed); edit_map(m, r); sink = m.size(); }); VF_EV("map over a buffer");
}
VF_GROUP_W(arrays, 30)
{
    typedef estd::array<int, 7> A; independent<A>(c, "array", [](A& a, Rng& r) { for(int i = 0; i < 9; ++i) a[(unsigned)r.below(7)] = (int)r.below(100); if(r.coin()) a.fill((int)r.below(100)); }, [](const A& a) { H h; for(unsigned i = 0; i < 7; ++i) h(a[i]); h(a.size()); return h.v; });
    Raw<int> a(30); for(int i = 0; i < 30; ++i) a[i] = (int)c.rng.below(100); volatile uint64_t sink;
    QUIET("algorithms", { H h; int* b = a.data(); int* e = b + 30; h(estd::find_if(b, e, [](int x) { return x > 60; }) - b); h(estd::accumulate(b, e, 0)); estd::make_heap(b, e); estd::pop_heap(b, e); estd::push_heap(b, e); estd::copy(b, b + 10, b + 15); h(estd::equal(b, b + 10, b + 15)); estd::fill_n(b, 3, 1); estd::reverse(b, e); h(*estd::min_element(b, e, [](int x, int y) { return x < y; })); h(*b); sink = h.v; });
    VF_EV("algorithms");
}
namespace { struct Node : estd::experimental::forward_node_base { int v; }; }
