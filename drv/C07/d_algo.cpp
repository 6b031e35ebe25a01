#include "vf.h"
#include <estd/algorithm.h>
#include <estd/numeric.h>
#include <estd/utility.h>
#include <estd/vector.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/iterator.h>
#include <estd/functional.h>
#include <algorithm>
#include <numeric>
#include <functional>
#include <list>
#include <deque>
#include <memory>
#include <iterator>
using namespace vf;
namespace {
// checked iterator over [b,e): reports dereferences and movements outside of its range
template <class T> struct Chk
{
    T *b, *e, *p;
    typedef T value_type; typedef T& reference; typedef T* pointer; typedef ptrdiff_t difference_type; typedef std::bidirectional_iterator_tag iterator_category;
    static VF_TLS const char* err;
    T& operator*() const { if(p < b || p >= e) { if(!err) err = "dereference outside of the range"; return *b; } return *p; }
    T* operator->() const { return &**this; }
    Chk& operator++() { if(p >= e) { if(!err) err = "increment past the end of the range"; } else ++p; return *this; }
    Chk operator++(int) { Chk t(*this); ++*this; return t; }
    Chk& operator--() { if(p <= b) { if(!err) err = "decrement before the start of the range"; } else --p; return *this; }
    Chk operator--(int) { Chk t(*this); --*this; return t; }
    bool operator==(const Chk& o) const { return p == o.p; }
    bool operator!=(const Chk& o) const { return p != o.p; }
};
template <class T> VF_TLS const char* Chk<T>::err = nullptr;

struct Kv { int k, tag; bool operator==(const Kv& o) const { return k == o.k; } bool operator<(const Kv& o) const { return k < o.k; } bool operator>(const Kv& o) const { return k > o.k; } };
template <class T> T mk(int v) { return T(v); }
template <> Kv mk<Kv>(int v) { static VF_TLS int tag = 0; return Kv{v, ++tag}; }
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <> bool same<Kv>(const Kv& a, const Kv& b) { return a.k == b.k && a.tag == b.tag; }

size_t len(Ctx& c) { if(c.rng.chance(1, 60)) { VF_EV("long range"); return 200 + c.rng.below(400); } if(c.rng.chance(1, 400)) { VF_EV("very long range"); return 65500 + c.rng.below(300); } return c.rng.chance(1, 6) ? c.rng.below(2) : c.rng.chance(1, 8) ? c.rng.below(40) : c.rng.below(10); }
// array of n elements, of which [lo,hi) is the working range; a pristine copy accompanies it
template <class T> struct Range
{
    Raw<T> a; std::vector<T> m; size_t lo, hi;
    Range(Ctx& c, size_t n, int alpha) : a(n), lo(0), hi(n)
    { Chk<T>::err = nullptr;
        for(size_t i = 0; i < n; ++i) { new (a.p + i) T(mk<T>((int)c.rng.below(alpha))); m.push_back(a.p[i]); }
        if(c.rng.coin()) { lo = c.rng.below(n + 1); hi = lo + c.rng.below(n - lo + 1); }
    }
    ~Range() { for(size_t i = 0; i < a.n; ++i) a.p[i].~T(); }
    size_t n() const { return hi - lo; }
    Chk<T> b() { return Chk<T>{a.p + lo, a.p + hi, a.p + lo}; }
    Chk<T> e() { return Chk<T>{a.p + lo, a.p + hi, a.p + hi}; }
    Chk<T> at(size_t i) { return Chk<T>{a.p + lo, a.p + hi, a.p + lo + i}; }
    T* pb() { return a.p + lo; } T* pe() { return a.p + hi; }
    typename std::vector<T>::iterator mb() { return m.begin() + lo; } typename std::vector<T>::iterator me() { return m.begin() + hi; }
    void verify(Ctx& c, const char* what)
    {
        VF_REQ(!Chk<T>::err, "%s: %s", what, Chk<T>::err);
        for(size_t i = 0; i < a.n; ++i) VF_REQ(same(a.p[i], m[i]), "%s: element %zu of %zu (range [%zu,%zu)) differs from the standard result", what, i, a.n, lo, hi);
    }
    void note(Ctx& c, const char* w) { c.op("%s on [%zu,%zu) of %zu", w, lo, hi, a.n); uint64_t h = hash_bytes(w, strlen(w)); c.mark(h ^ lo * 64 ^ hi); for(auto& x : m) c.mark(hash_bytes(&x, sizeof x)); c.state(c.digest); if(n()) c.nt(); else VF_EV("empty range"); }
};
template <class T> void modify(Ctx& c)
{
    Range<T> r(c, len(c), 5); T v = mk<T>((int)c.rng.below(5));
    switch(c.rng.below(7))
    {
        case 0: { r.note(c, "fill"); VF_EV("fill"); estd::fill(r.b(), r.e(), v); std::fill(r.mb(), r.me(), v); break; }
        case 1: { r.note(c, "fill_n"); VF_EV("fill"); size_t k = c.rng.below(r.n() + 1); auto it = estd::fill_n(r.b(), k, v); std::fill_n(r.mb(), k, v); VF_REQ(it == r.at(k), "fill_n result"); break; }
        case 2: { r.note(c, "reverse"); VF_EV("reverse"); estd::reverse(r.b(), r.e()); std::reverse(r.mb(), r.me()); break; }
        case 3: if(r.n()) { r.note(c, "iter_swap"); VF_EV("swap"); size_t i = c.rng.below(r.n()), j = c.rng.below(r.n()); estd::iter_swap(r.at(i), r.at(j)); std::iter_swap(r.mb() + i, r.mb() + j); if(i == j) VF_EV("self swap"); } break;
        case 4: { r.note(c, "copy down"); size_t k = c.rng.below(r.n() + 1); auto it = estd::copy(r.at(k), r.e(), r.b()); auto mt = std::copy(r.mb() + k, r.me(), r.mb()); VF_REQ(it == r.at(mt - r.mb()), "copy result"); VF_EV("overlapping copy"); break; }
        case 5: { r.note(c, "copy_backward up"); size_t k = c.rng.below(r.n() + 1); auto it = estd::copy_backward(r.b(), r.at(r.n() - k), r.e()); auto mt = std::copy_backward(r.mb(), r.me() - k, r.me()); VF_REQ(it == r.at(mt - r.mb()), "copy_backward result"); VF_EV("overlapping copy"); break; }
        default: { r.note(c, "move_backward up"); size_t k = c.rng.below(r.n() + 1); auto it = estd::move_backward(r.b(), r.at(r.n() - k), r.e()); auto mt = std::move_backward(r.mb(), r.me() - k, r.me()); VF_REQ(it == r.at(mt - r.mb()), "move_backward result"); VF_EV("move_backward"); }
    }
    r.verify(c, "range");
}
template <class T> void transfer(Ctx& c)
{
    Range<T> s(c, len(c), 6); s.note(c, "source"); size_t k = c.rng.below(s.n() + 1);
    Range<T> d(c, s.n() + c.rng.below(4), 6); d.lo = c.rng.below(d.a.n - s.n() + 1); d.hi = d.lo + s.n();
    VF_EV("copy");
    switch(c.rng.below(4))
    {
        case 0: { c.op("copy"); auto it = estd::copy(s.b(), s.e(), d.b()); VF_REQ(it == d.e(), "copy result"); std::copy(s.mb(), s.me(), d.mb()); break; }
        case 1: { c.op("copy_n %zu", k); auto it = estd::copy_n(s.b(), k, d.b()); VF_REQ(it == d.at(k), "copy_n result"); std::copy_n(s.mb(), k, d.mb()); break; }
        case 2: { c.op("copy_backward"); auto it = estd::copy_backward(s.b(), s.e(), d.e()); VF_REQ(it == d.b(), "copy_backward result"); std::copy_backward(s.mb(), s.me(), d.me()); break; }
        default: { c.op("pointers"); T* it = estd::copy(s.pb(), s.pe(), d.pb()); VF_REQ(it == d.pe(), "copy result"); std::copy(s.mb(), s.me(), d.mb()); }
    }
    s.verify(c, "source"); d.verify(c, "destination");
}
template <class T> void query(Ctx& c)
{
    Range<T> a(c, len(c), 3), b(c, c.rng.chance(1, 2) ? c.rng.below(4) : len(c), 3);
    if(c.rng.chance(1, 2) && b.a.n && a.a.n >= b.a.n)      // plant b inside a
    { size_t at = c.rng.below(a.a.n - b.a.n + 1); for(size_t i = 0; i < b.a.n; ++i) { a.a.p[at + i] = b.a.p[i]; a.m[at + i] = b.a.p[i]; } }
    a.note(c, "haystack"); b.note(c, "needle");
    auto eq = [](const T& x, const T& y) { return x == y; };
    auto pos = [&](Chk<T> it) { return (size_t)(it.p - a.pb()); };
    switch(c.rng.below(7))
    {
        case 0: { size_t want = std::search(a.mb(), a.me(), b.mb(), b.me()) - a.mb(); c.op("search"); VF_EQ(pos(estd::search(a.b(), a.e(), b.b(), b.e(), eq)), want, "search"); if(want < a.n() && b.n()) VF_EV("search"); break; }
        case 1: { size_t want = std::find_first_of(a.mb(), a.me(), b.mb(), b.me()) - a.mb(); c.op("find_first_of"); VF_EQ(pos(estd::find_first_of(a.b(), a.e(), b.b(), b.e())), want, "find_first_of"); if(want < a.n()) VF_EV("find_first_of"); break; }
        case 2: { auto pr = [](const T& x, const T& y) { return y < x; }; size_t want = std::find_first_of(a.mb(), a.me(), b.mb(), b.me(), pr) - a.mb(); c.op("find_first_of(pred)"); VF_EQ(pos(estd::find_first_of(a.b(), a.e(), b.b(), b.e(), pr)), want, "find_first_of(pred)"); if(want < a.n()) VF_EV("find_first_of"); break; }
        case 3: { T v = mk<T>((int)c.rng.below(4)); c.op("find_if"); auto pr = [&](const T& x) { return x == v; }; size_t want = std::find_if(a.mb(), a.me(), pr) - a.mb(); VF_EQ(pos(estd::find_if(a.b(), a.e(), pr)), want, "find_if"); VF_EV("find_if"); break; }
        case 4: { if(b.n() < a.n()) { b.hi = b.lo; a.hi = a.lo; } else b.hi = b.lo + a.n(); if(c.rng.coin()) for(size_t i = 0; i < a.n(); ++i) { b.pb()[i] = a.pb()[i]; b.mb()[i] = a.pb()[i]; }
            c.op("equal of %zu", a.n()); VF_EQ(estd::equal(a.b(), a.e(), b.b()), std::equal(a.mb(), a.me(), b.mb()), "equal"); VF_EV("equal"); break; }
        case 5: { if(b.n() < a.n()) { a.hi = a.lo + b.n(); } size_t k = a.n() ? c.rng.below(a.n() + 1) : 0; for(size_t i = 0; i < k; ++i) { b.pb()[i] = a.pb()[i]; b.mb()[i] = a.pb()[i]; }
            c.op("mismatch of %zu", a.n()); auto r = estd::mismatch(a.b(), a.e(), b.b()); auto w = std::mismatch(a.mb(), a.me(), b.mb()); VF_EQ(pos(r.first), (size_t)(w.first - a.mb()), "mismatch first"); VF_EQ((size_t)(r.second.p - b.pb()), (size_t)(w.second - b.mb()), "mismatch second"); VF_EV("mismatch"); break; }
        default: { bool gt = c.rng.coin(); auto cmp = [gt](const T& x, const T& y) { return gt ? y < x : x < y; }; c.op("min/max_element gt=%d", gt); VF_EV("minmax");
            VF_EQ(pos(estd::min_element(a.b(), a.e(), cmp)), (size_t)(std::min_element(a.mb(), a.me(), cmp) - a.mb()), "min_element"); VF_EQ(pos(estd::max_element(a.b(), a.e(), cmp)), (size_t)(std::max_element(a.mb(), a.me(), cmp) - a.mb()), "max_element");
            VF_EQ((long)estd::distance(a.b(), a.e()), (long)a.n(), "distance"); }
    }
    a.verify(c, "haystack"); b.verify(c, "needle");
}
template <class T> void scalar(Ctx& c)
{
    T a = mk<T>((int)c.rng.below(4)), b = mk<T>((int)c.rng.below(4)), d = mk<T>((int)c.rng.below(4)); if(d < b) std::swap(b, d);
    c.op("min/max/clamp"); c.mark(hash_bytes(&a, sizeof a)); c.mark(hash_bytes(&b, sizeof b)); c.mark(hash_bytes(&d, sizeof d)); c.nt();
    VF_REQ(&estd::min(a, b) == &std::min(a, b), "min identity"); VF_REQ(&estd::max(a, b) == &std::max(a, b), "max identity"); VF_REQ(&estd::min(a, a) == &a, "min of one object");
    auto gt = [](const T& x, const T& y) { return y < x; };
    VF_REQ(&estd::min(a, b, gt) == &std::min(a, b, gt), "min(comp) identity"); VF_EV("minmax");
    VF_REQ(&estd::clamp(a, b, d) == (a < b ? &b : d < a ? &d : &a), "clamp"); VF_REQ(&estd::clamp(a, d, b, gt) == (gt(a, d) ? &d : gt(b, a) ? &b : &a), "clamp(comp)"); VF_EV("clamp");
    T x(a), y(b); estd::swap(x, y); VF_REQ(same(x, b) && same(y, a), "swap"); estd::swap(x, x); VF_REQ(same(x, b), "swap with itself"); VF_EV("swap"); VF_EV("self swap");
    T o(a); T old = estd::exchange(o, b); VF_REQ(same(old, a) && same(o, b), "exchange"); T old2 = estd::exchange(o, mk<T>(3)); VF_REQ(same(old2, b) && o == mk<T>(3), "exchange"); VF_EV("exchange");
}
template <class T> void int_swap(Ctx& c)
{
    T a = (T)c.rng.edgy(), b = (T)c.rng.edgy(); if(c.rng.chance(1, 8)) b = a; T x[3] = {a, b, (T)~a}; c.op("swap %llx %llx", (long long)a, (long long)b); c.mark((uint64_t)a); c.mark((uint64_t)b); c.nt();
    estd::swap(x[0], x[1]); VF_REQ(x[0] == b && x[1] == a && x[2] == (T)~a, "swap of %zu byte integers", sizeof(T)); estd::swap(x[1], x[1]); VF_REQ(x[1] == a, "swap with itself of %zu byte integers", sizeof(T)); VF_EV("self swap");
    T lo = a < b ? a : b, hi = a < b ? b : a, v = (T)c.rng.edgy(); VF_REQ(estd::clamp(v, lo, hi) == std::clamp(v, lo, hi), "clamp"); VF_REQ(estd::min(a, v) == std::min(a, v) && estd::max(a, v) == std::max(a, v), "min/max");
    VF_REQ(estd::less<T>()(a, b) == (a < b) && estd::greater<T>()(a, b) == (a > b) && estd::equal_to<T>()(a, b) == (a == b) && estd::not_equal_to<T>()(a, b) == (a != b) && estd::equal_to<void>()(a, b) == (a == b) && estd::not_equal_to<void>()(a, b) == (a != b), "comparison functors"); VF_EV("swap");
}
}
VF_REG("modify<int>", 60, modify<int>);
VF_REG("modify<u8>", 60, modify<unsigned char>);
VF_REG("modify<kv>", 60, modify<Kv>);
VF_REG("transfer<int>", 40, transfer<int>);
VF_REG("transfer<kv>", 40, transfer<Kv>);
VF_REG("transfer<char>", 40, transfer<char>);
VF_REG("query<int>", 120, query<int>);
VF_REG("query<kv>", 100, query<Kv>);
VF_REG("query<u8>", 60, query<unsigned char>);
VF_REG("scalar<int>", 40, scalar<int>);
VF_REG("scalar<kv>", 40, scalar<Kv>);
VF_REG("int_swap<char>", 12, int_swap<char>);
VF_REG("int_swap<schar>", 12, int_swap<signed char>);
VF_REG("int_swap<uchar>", 12, int_swap<unsigned char>);
VF_REG("int_swap<short>", 12, int_swap<short>);
VF_REG("int_swap<ushort>", 12, int_swap<unsigned short>);
VF_REG("int_swap<int>", 12, int_swap<int>);
VF_REG("int_swap<unsigned>", 12, int_swap<unsigned>);
VF_REG("int_swap<long>", 12, int_swap<long>);
VF_REG("int_swap<ulong>", 12, int_swap<unsigned long>);
VF_REG("int_swap<llong>", 12, int_swap<long long>);
VF_GROUP(accumulate)
{
    size_t n = len(c); std::vector<int> v; for(size_t i = 0; i < n; ++i) v.push_back((int)c.rng.range(-1000, 1000)); int init = (int)c.rng.range(-5, 5);
    c.op("accumulate of %zu from %d", n, init); for(int x : v) c.mark(x); if(n) c.nt(); else VF_EV("empty range"); VF_EV("accumulate");
    VF_EQ(estd::accumulate(v.begin(), v.end(), init), std::accumulate(v.begin(), v.end(), init), "sum");
    VF_EQ(estd::accumulate(v.begin(), v.end(), (long long)1 << 40), std::accumulate(v.begin(), v.end(), (long long)1 << 40), "wide sum");
    auto op = [](long long a, int b) { return (a * 31 + b) % 1000003; };
    VF_EQ(estd::accumulate(v.begin(), v.end(), 7ll, op), std::accumulate(v.begin(), v.end(), 7ll, op), "fold in order");
    std::list<std::string> l; for(int x : v) if(l.size() < 300) l.push_back(std::to_string(x)); VF_REQ(estd::accumulate(l.begin(), l.end(), std::string("<")) == std::accumulate(l.begin(), l.end(), std::string("<")), "concatenation in order");
    auto fs = [](std::string a, const std::string& b) { return b + a; }; VF_REQ(estd::accumulate(l.begin(), l.end(), std::string("<"), fs) == std::accumulate(l.begin(), l.end(), std::string("<"), fs), "fold of strings");
}
VF_GROUP(iterators)
{   // iterators of other containers as arguments
    size_t n = len(c); if(n > 40) n = n % 40; std::vector<int> v; for(size_t i = 0; i < n; ++i) v.push_back((int)c.rng.below(6)); for(int x : v) c.mark(x); if(n) c.nt();
    std::list<int> l(v.begin(), v.end()); std::deque<int> d(v.begin(), v.end()); estd::layer1::vector<int, 40> e; for(int x : v) e.push_back(x);
    int k = (int)c.rng.below(7); auto is = [k](int x) { return x == k; }; size_t want = std::find_if(v.begin(), v.end(), is) - v.begin();
    c.op("list/deque/vector of %zu", n);
    VF_EQ((size_t)std::distance(l.begin(), estd::find_if(l.begin(), l.end(), is)), want, "find_if in list"); VF_EQ((size_t)(estd::find_if(d.begin(), d.end(), is) - d.begin()), want, "find_if in deque");
    size_t at = 0; for(auto it = e.begin(), f = estd::find_if(e.begin(), e.end(), [k](const int& x) { return x == k; }); it != f; ++it) ++at; VF_EQ(at, want, "find_if in vector");
    estd::reverse(l.begin(), l.end()); estd::reverse(d.begin(), d.end()); std::reverse(v.begin(), v.end()); VF_EV("reverse");
    VF_REQ(std::equal(v.begin(), v.end(), l.begin()) && std::equal(v.begin(), v.end(), d.begin()), "reverse of list/deque");
    VF_EQ((size_t)estd::distance(l.begin(), l.end()), n, "distance"); VF_REQ(estd::equal(l.begin(), l.end(), d.begin()), "equal across containers"); VF_EV("equal");
    // back insertion
    estd::layer1::vector<int, 40> o; estd::back_insert_iterator<estd::layer1::vector<int, 40>> bi(o); std::vector<int> so; std::back_insert_iterator<std::vector<int>> sbi(so);
    estd::copy(v.begin(), v.end(), bi); if(n) { *bi = v[0]; so = v; so.push_back(v[0]); ++bi; bi++; if(n < 38) { bi = 99; so.push_back(99); } }
    VF_EQ((size_t)o.size(), so.size(), "back inserted"); for(size_t i = 0; i < so.size(); ++i) VF_EQ((int)o[i], so[i], "back inserted element"); VF_EV("back_insert");
    estd::layer1::string<64> s; auto fi = estd::experimental::make_filter_iterator([](char ch) { return ch == '/' ? 0 : ch + 1; }, "abc/"); while(*fi) s += *fi++; VF_REQ(s == "bcd", "filter_iterator"); VF_EV("filter");
}
VF_GROUP(ostreambuf_iter)
{
    size_t n = c.rng.below(12); std::string t; for(size_t i = 0; i < n; ++i) t += (char)('a' + c.rng.below(26)); c.op("ostreambuf_iterator '%s'", t.c_str()); c.mark(hash_bytes(t.data(), n)); if(n) c.nt();
    estd::layer1::stringbuf<32> sb; estd::experimental::ostreambuf_iterator<estd::layer1::stringbuf<32>> it(&sb); VF_REQ(!it.failed(), "fresh iterator has not failed");
    for(char ch : t) { if(c.rng.coin()) it++ = ch; else { it = ch; ++it; } VF_REQ(!it.failed(), "iterator that wrote has not failed"); }
    std::string got; for(size_t i = 0; i < (size_t)sb.str().size(); ++i) got += (char)sb.str()[i]; VF_REQ(got == t, "written '%s'", got.c_str()); VF_EV("ostreambuf_iterator");
    char room[4]; estd::span<char> sp(room); estd::detail::streambuf<estd::internal::impl::out_span_streambuf<char>> ob(sp); estd::experimental::ostreambuf_iterator<decltype(ob)> oi(&ob);
    for(size_t i = 0; i < n; ++i) { oi = t[i]; VF_EQ(oi.failed(), i >= 4, "failed exactly once the buffer is full"); if(oi.failed()) VF_EV("ostreambuf_iterator failed"); } VF_REQ(!memcmp(room, t.data(), n < 4 ? n : 4), "bytes written");
}
VF_GROUP_W(tracked, 60)
{
    Ledger::reset();
    { size_t n = 1 + len(c); std::vector<Tracked> v; std::vector<int> r; for(size_t i = 0; i < n; ++i) { int x = (int)c.rng.below(50); v.emplace_back(x); r.push_back(x); c.mark(x); }
      auto check = [&](const char* w) { for(size_t i = 0; i < n; ++i) VF_REQ(v[i].get() == r[i], "%s: element %zu", w, i); VF_LEDGER(n); };
      c.op("tracked %zu", n); c.nt(); VF_EV("tracked");
      estd::reverse(v.begin(), v.end()); std::reverse(r.begin(), r.end()); check("reverse");
      size_t k = c.rng.below(n); if(k) { estd::move_backward(v.begin(), v.end() - k, v.end()); std::vector<int> q(r); std::move_backward(q.begin(), q.end() - k, q.end()); for(size_t i = 0; i < k && i < n - k; ++i) { v[i] = Tracked(q[i]); } for(size_t i = 0; i < n; ++i) if(i >= k) {} r = q; for(size_t i = 0; i < n; ++i) if(i < k) { v[i] = Tracked(i); r[i] = (int)i; } check("move_backward"); VF_EV("move_backward"); }
      size_t i = c.rng.below(n), j = c.rng.below(n); estd::swap(v[i], v[j]); std::swap(r[i], r[j]); check("swap"); VF_EV("swap");
      { Tracked old = estd::exchange(v[i], Tracked(5)); VF_EQ(old.get(), r[i], "exchange"); r[i] = 5; } check("exchange");
      { Tracked src(77); Tracked dst(std::move(src)); VF_EQ(src.moved, 1, "move"); } check("move");
      estd::fill(v.begin(), v.end(), Tracked(9)); std::fill(r.begin(), r.end(), 9); check("fill"); VF_EV("fill"); }
    VF_LEDGER(0);
    std::unique_ptr<int> p(new int(1)), q(new int(2)); int* pp = p.get(); estd::swap(p, q); VF_REQ(q.get() == pp && *p == 2, "swap of move-only"); auto o = estd::exchange(p, std::unique_ptr<int>()); VF_REQ(!p && *o == 2, "exchange of move-only");
}
