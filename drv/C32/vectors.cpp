#include "vf.h"
#include <estd/vector.h>
#include <estd/string.h>
#include <vector>
#include <type_traits>
#include "over.h"
using namespace vf;
namespace {
struct Tri { unsigned char a, b, c; Tri() = default; Tri(int v) : a(v), b(v >> 8), c(a ^ b) {} };
inline int num(const Tri& t) { return t.a | t.b << 8; } inline int num(int v) { return v; } inline int num(long long v) { return (int)v; } inline int num(unsigned char v) { return v; }
template <class T_, size_t N> struct V1 { typedef T_ T; typedef estd::layer1::vector<T, N> V; Boxed<V> b; size_t cap = N; explicit V1(Ctx& c) { c.op("layer1::vector<%zu bytes,%zu>", sizeof(T), N); } V& v() { return *b; } };
template <class T_, size_t N> struct V2 { typedef T_ T; typedef estd::layer2::vector<T, N> V; Raw<T> r; Boxed<V> b; size_t cap = N; explicit V2(Ctx& c) : r(N), b(r.data()) { c.op("layer2::vector<%zu bytes,%zu>", sizeof(T), N); } V& v() { return *b; } };
template <class T_> struct V3 { typedef T_ T; typedef estd::layer3::vector<T> V; Raw<T> r; Boxed<V> b; size_t cap; explicit V3(Ctx& c) : r(1 + c.rng.below(c.rng.coin() ? 8 : 300)), b(r.data(), r.n), cap(r.n) { c.op("layer3::vector<%zu bytes>[%zu]", sizeof(T), r.n); } V& v() { return *b; } };
template <class P> void run(Ctx& c)
{
    typedef typename P::T T; P p(c); auto& v = p.v(); const size_t cap = p.cap; std::vector<int> m;
    for(unsigned step = 10 + c.rng.below(20); step--;)
    {
        size_t n0 = c.rng.chance(1, 3) ? cap : c.rng.coin() ? cap - c.rng.below(cap < 6 ? cap + 1 : 6) : c.rng.below(cap + 1);
        v.clear(); m.clear(); for(size_t i = 0; i < n0; ++i) { int x = (int)c.rng.below(200); m.push_back(x); }
        c.op("fill to %zu", n0);
        bool ok = over::completes([&] { for(size_t i = 0; i < n0; ++i) v.push_back(T(m[i])); });
        VF_REQ(ok && (size_t)v.size() == n0, "filling %zu of %zu", n0, cap);
        size_t room = cap - n0, k;
        switch(c.rng.below(6)) { case 0: k = room; break; case 1: case 2: k = room + 1 + c.rng.below(3); break; case 3: k = 256 - n0 % 256 + c.rng.below(4); break; case 4: k = c.rng.below(300); break; default: k = room + c.rng.below(700); }
        Raw<T> src(k); for(size_t i = 0; i < k; ++i) new (&src[i]) T((int)(200 + i % 50)); const T* q = src.data(); const T one(7);
        size_t at = c.rng.below(n0 + 1); unsigned op = c.rng.below(9); std::vector<int> want = m, in; for(size_t i = 0; i < k; ++i) in.push_back(200 + i % 50);
        const char* names[] = { "push_back", "push_back(move)", "emplace_back", "insert", "insert(move)", "insert(range)", "append", "assign(range)", "resize" };
        c.op("%s %zu at %zu", names[op], k, at);
        bool done = true, refused = false;
        switch(op)
        {
            case 0: want.push_back(7); done = over::completes([&] { v.push_back(one); }); break;
            case 1: want.push_back(7); done = over::completes([&] { v.push_back(T(7)); }); break;
            case 2: want.push_back(7); done = over::completes([&] { v.emplace_back(7); }); break;
            case 3: want.insert(want.begin() + at, 7); done = over::completes([&] { v.insert(v.begin() + at, one); }); break;
            case 4: want.insert(want.begin() + at, 7); done = over::completes([&] { v.insert(v.begin() + at, T(7)); }); break;
            case 5: want.insert(want.begin() + at, in.begin(), in.end()); done = over::completes([&] { v.insert(v.begin() + at, q, q + k); }); break;
            case 6: want.insert(want.end(), in.begin(), in.end()); done = over::completes([&] { v.append(q, k); }); break;
            case 7: want = in; done = over::completes([&] { v.assign(q, q + k); }); break;
            default: want.resize(k); done = over::completes([&] { refused = !v.resize(k); }); break;
        }
        size_t now = v.size(); VF_REQ(now <= cap, "%s: size %zu in storage for %zu", names[op], now, cap);
        if(want.size() <= cap)
        {
            VF_REQ(done && !refused, "%s of %zu ended the program although it fits (%zu of %zu)", names[op], k, want.size(), cap);
            VF_REQ(now == want.size(), "%s: size %zu, expected %zu", names[op], now, want.size());
            size_t look = op == 8 ? std::min(now, n0) : now; const T* d = v.clock();
            for(size_t i = 0; i < look; ++i) VF_REQ(num(d[i]) == want[i], "%s: element %zu is %d, expected %d", names[op], i, num(d[i]), want[i]);
            VF_EV(now == cap ? "exactly full" : "fits");
        }
        else
        {
            VF_REQ(!done || refused, "%s of %zu, which needs %zu of %zu, returns as if it fitted; size is %zu", names[op], k, want.size(), cap, now);
            VF_EV(names[op]); VF_EV(done ? "over capacity: refused" : "over capacity: stopped"); c.nt();
        }
        c.state(now * 64 + op); c.mark(n0 * 4096 + k * 16 + op);
    }
    v.clear();
}
VF_REG("layer1::vector<int,4>", 60, run<V1<int, 4>>);
VF_REG("layer1::vector<tri,16>", 60, run<V1<Tri, 16>>);
VF_REG("layer1::vector<u8,255>", 60, run<V1<unsigned char, 255>>);
VF_REG("layer1::vector<i64,256>", 60, run<V1<long long, 256>>);
VF_REG("layer1::vector<int,300>", 60, run<V1<int, 300>>);
VF_REG("layer2::vector<int,16>", 60, run<V2<int, 16>>);
VF_REG("layer2::vector<tri,255>", 60, run<V2<Tri, 255>>);
VF_REG("layer3::vector<int>", 90, run<V3<int>>);
VF_REG("layer3::vector<u8>", 90, run<V3<unsigned char>>);

// building a fixed string out of text that does not fit
template <class S, size_t cap> void construct(Ctx& c)
{
    size_t k; switch(c.rng.below(4)) { case 0: k = cap; break; case 1: k = cap + 1 + c.rng.below(3); break; case 2: k = 256 * (1 + c.rng.below(3)) + c.rng.below(cap + 1); break; default: k = c.rng.below(cap + 300); }
    std::string t; for(size_t i = 0; i < k; ++i) t += (char)('a' + c.rng.below(26));
    Raw<char> z(k + 1); memcpy(z.data(), t.c_str(), k + 1); const char* q = z.data(); Raw<S> room(1); S* s = nullptr; unsigned op = c.rng.below(4);
    static estd::layer1::string<1500, false> o; o.clear(); o.append(q, k); static estd::layer1::string<1501> o2; o2.clear(); o2.append(q, k);
    const char* names[] = { "S(cstr)", "S(p,n)", "S(other)", "S(terminated other)" }; c.op("%s of %zu into %zu", names[op], k, cap);
    volatile bool done = false;
    switch(op)
    {
        case 0: done = over::completes([&] { s = new (room.data()) S(q); }); break;
        case 1: done = over::completes([&] { s = new (room.data()) S(q, k); }); break;
        case 2: done = over::completes([&] { s = new (room.data()) S(o); }); break;
        default: done = over::completes([&] { s = new (room.data()) S(o2); }); break;
    }
    if(k <= cap) { VF_REQ(done, "%s of %zu ended the program although %zu fit", names[op], k, cap); s = room.data(); VF_REQ((size_t)s->size() == k && !memcmp(s->data(), q, k), "content"); s->~S(); VF_EV(k == cap ? "exactly full" : "fits"); }
    else { VF_REQ(!done, "%s of %zu into %zu returns as if it fitted", names[op], k, cap); VF_EV(names[op]); VF_EV("over capacity: stopped"); c.nt(); }
    c.mark(k * 4 + op); c.state(k * 4 + op);
}
VF_REG("construct<16>", 200, construct<estd::layer1::string<16>, 15>);
VF_REG("construct<16,false>", 200, construct<estd::layer1::string<16, false>, 16>);
VF_REG("construct<255>", 200, construct<estd::layer1::string<255>, 254>);
VF_REG("construct<256,false>", 200, construct<estd::layer1::string<256, false>, 256>);
VF_REG("construct<300>", 200, construct<estd::layer1::string<300>, 299>);
}
