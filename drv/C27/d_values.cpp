// shared values: containers, optional-like objects, callables, smart pointers, chrono values
#include "d_shared.h"
#include <estd/array.h>
#include <estd/vector.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/deque.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/optional.h>
#include <estd/variant.h>
#include <estd/expected.h>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/memory.h>
#include <estd/chrono.h>
#include <estd/algorithm.h>
#include "heap_alloc.h"
namespace {
template <class V> uint64_t read_seq(const V& v, Rng& r) { H h; size_t n = v.size(); h(n); h(v.empty()); for(auto it = v.begin(); it != v.end(); ++it) h((int)*it); if(n) { h((int)v[(unsigned)r.below(n)]); h((int)v.front()); h((int)v.back()); } return h; }
int plain(int x) { return x * 7; }
struct Adder { int k; int operator()(int x) { return x + k; } };
}
VF_GROUP_W(vectors, 60)
{
    unsigned n = 1 + (unsigned)c.rng.below(19); Boxed<estd::layer1::vector<int, 20>> a;
    for(unsigned i = 0; i < n; ++i) a->push_back((int)c.rng.below(99));
    shared(c, "fixed vector", *a, [](const estd::layer1::vector<int, 20>& v, Rng& r) { return read_seq(v, r); });
    { typedef estd::vector<int, HeapAlloc<int>> V; Boxed<V> b; for(unsigned i = 0; i < n; ++i) b->push_back((int)c.rng.below(99)); shared(c, "heap vector", *b, [](const V& v, Rng& r) { return read_seq(v, r); }); } heap_release_all();
    Boxed<estd::array<int, 9>> arr; for(auto& x : *arr) x = (int)c.rng.below(50); shared(c, "array", *arr, [](const estd::array<int, 9>& v, Rng& r) { H h; h(read_seq(v, r)); h(estd::find_if(v.begin(), v.end(), [](int x) { return x > 25; }) - v.begin()); return (uint64_t)h; });
}
VF_GROUP_W(rings, 60)
{
    typedef estd::layer1::deque<int, 10> D; Boxed<D> d; typedef estd::layer1::queue<int, 10> Q; Boxed<Q> q; typedef estd::layer1::stack<int, 10> S; Boxed<S> s; typedef estd::layer1::priority_queue<int, 20> P; Boxed<P> p;
    for(unsigned i = 0, n = (unsigned)c.rng.below(30); i < n; ++i) { int v = (int)c.rng.below(100); if(d->size() < 8) { if(c.rng.coin()) d->push_back(v); else d->push_front(v); } else d->pop_front(); if(q->size() < 8) q->push(v); else q->pop(); if(s->size() < 9) s->push(v); if(p->size() < 18) p->push(v); }
    shared(c, "deque", *d, [](const D& x, Rng&) { H h; h(x.size()); h(x.empty()); if(!x.empty()) { h((int)x.front()); h((int)x.back()); } return (uint64_t)h; });
    shared(c, "queue", *q, [](const Q& x, Rng&) { H h; h(x.size()); h(x.empty()); if(!x.empty()) { h((int)x.front()); h((int)x.back()); } return (uint64_t)h; });
    shared(c, "stack", *s, [](const S& x, Rng&) { H h; h(x.size()); h(x.empty()); if(!x.empty()) h((int)x.top());; return (uint64_t)h; });
    shared(c, "priority queue", *p, [](const P& x, Rng&) { H h; h(x.size()); h(x.empty()); if(!x.empty()) h((int)x.top()); return (uint64_t)h; });
}
VF_GROUP_W(maps, 80)
{
    typedef estd::layer1::unordered_map<int, int, 32> M; Boxed<M> m; typedef estd::layer1::unordered_set<int, 16> S; Boxed<S> s;
    for(unsigned i = 0, n = (unsigned)c.rng.below(40); i < n; ++i) { int k = 1 + (int)c.rng.below(40); if(c.rng.chance(3, 4)) { m->insert({ k, (int)c.rng.below(1000) }); s->insert(k); } else { m->erase(k); s->erase(k); } }
    shared(c, "map", *m, [](const M& x, Rng& r) { H h; h(x.size()); h(x.empty()); for(auto it = x.begin(); it != x.end(); ++it) { h((*it).first); h((*it).second); } for(int i = 0; i < 12; ++i) { int k = (int)r.below(42); h(x.contains(k)); if(k) h(x.count(k)); auto f = x.find(k); h(f == x.end()); if(!(f == x.end())) h((*f).second); } h(x == x); return (uint64_t)h; });
    shared(c, "set", *s, [](const S& x, Rng& r) { H h; h(x.size()); for(auto it = x.begin(); it != x.end(); ++it) h(*it); for(int i = 0; i < 12; ++i) h(x.contains((int)r.below(42))); unsigned b = x.bucket(1 + (int)r.below(40)); for(auto it = x.begin(b); it != x.end(b); ++it) h(*it); return (uint64_t)h; });
}
VF_GROUP_W(maybes, 60)
{
    typedef estd::optional<int> O; O o; if(c.rng.coin()) o = (int)c.rng.below(100); typedef estd::layer1::optional<int, -1> O1; O1 o1; if(c.rng.coin()) o1 = (int)c.rng.below(100);
    shared(c, "optional", o, [](const O& x, Rng&) { H h; h(x.has_value()); if(x) { h(*x); h(x.value()); } h(x.value_or(-5)); h(x == O(4)); O mine(x); mine = 3; h(*mine); return (uint64_t)h; });
    shared(c, "sentinel optional", o1, [](const O1& x, Rng&) { H h; h(x.has_value()); if(x) h(*x); h(x.value_or(-5)); O1 mine(x); mine = 3; h(*mine); return (uint64_t)h; });
    typedef estd::variant<int, double, char> V; V v((int)c.rng.below(9)); if(c.rng.coin()) v.emplace<2>('x');
    shared(c, "variant", v, [](const V& x, Rng&) { H h; h(x.index()); if(const int* p = estd::get_if<0>(&x)) h(*p); if(const char* p = estd::get_if<2>(&x)) h(*p); V mine(x); mine.emplace<1>(2.5); h(mine.index()); return (uint64_t)h; });
    typedef estd::expected<int, short> E; E e((int)c.rng.below(9)); if(c.rng.coin()) e = E(estd::unexpect_t(), (short)c.rng.below(9));
    shared(c, "expected", e, [](const E& x, Rng&) { H h; h(x.has_value()); if(x.has_value()) h(*x); else h(x.error()); h(x.value_or(-3)); return (uint64_t)h; });
    typedef estd::tuple<int, char, long> T; T t((int)c.rng.below(9), 'q', 77L);
    shared(c, "tuple", t, [](const T& x, Rng&) { H h; h(estd::get<0>(x)); h(estd::get<1>(x)); h(estd::get<2>(x)); T mine(x); estd::get<0>(mine) = 9; h(estd::get<0>(mine)); return (uint64_t)h; });
}
VF_GROUP_W(callables, 40)
{
    int k = (int)c.rng.below(50); typedef estd::detail::function<int(int), estd::detail::impl::function_fnptr1<int(int)>> F; F::model<Adder> m(Adder{ k }); F f(&m);
    shared(c, "function", f, [](const F& x, Rng& r) { H h; h((bool)x); F mine(x); for(int i = 0; i < 5; ++i) h(mine((int)r.below(100))); return (uint64_t)h; });
    estd::layer1::shared_ptr<int> sp; sp.construct(k); shared(c, "owner read", sp, [](const estd::layer1::shared_ptr<int>& x, Rng&) { H h; h(*x); h(*x.get()); h(x.use_count()); return (uint64_t)h; });
    using namespace estd::chrono; milliseconds d((int)c.rng.below(100000)); shared(c, "duration", d, [](const milliseconds& x, Rng& r) { H h; h(x.count()); h(duration_cast<seconds>(x).count()); milliseconds y = x + milliseconds((int)r.below(50)); h(y.count()); h(y > x); h(y == x); return (uint64_t)h; });
}
