#include "vf.h"
#include <estd/array.h>
#include <estd/span.h>
#include <estd/internal/buffer.h>
#include <vector>
using namespace vf;
namespace {
struct Rec { long a; short b; char c; bool operator==(const Rec& o) const { return a == o.a && b == o.b && c == o.c; } bool operator!=(const Rec& o) const { return !(*this == o); } };
template <class T> T val(Ctx& c) { return (T)c.rng.next(); }
template <> Rec val<Rec>(Ctx& c) { return Rec{(long)c.rng.next(), (short)c.rng.next(), (char)c.rng.next()}; }
template <class T> uint64_t hv(const std::vector<T>& m) { uint64_t h = m.size(); for(auto& e : m) h = mix(h ^ hash_bytes(&e, sizeof(char))); return h; }

template <class A, class T> void same(Ctx& c, const A& a, const std::vector<T>& m, const char* what)
{
    VF_EQ((size_t)a.size(), m.size(), what);
    size_t i = 0;
    for(auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        VF_REQ(i < m.size(), "%s: iteration past end", what);
        VF_REQ(*it == m[i], "%s: element %zu differs (iteration)", what, i);
    }
    VF_EQ(i, m.size(), what);
    for(i = 0; i < m.size(); ++i) VF_REQ(a[i] == m[i], "%s: element %zu differs", what, i);
    VF_EVN("element checked", m.size());
}

template <class T, size_t N> void arr(Ctx& c)
{
    typedef estd::array<T, N> A;
    c.op("array<%zu bytes,%zu>", sizeof(T), N);
    Boxed<A> b; A& a = *b;
    VF_EQ(sizeof(A), sizeof(T) * N, "sizeof");
    std::vector<T> m(N);
    for(size_t i = 0; i < N; ++i) a[i] = m[i] = val<T>(c);
    same(c, a, m, "initial");
    for(int k = 0; k < 20; ++k)
    {
        switch(c.rng.below(9))
        {
            case 0: case 1: { size_t i = c.rng.below(N); T v = val<T>(c); c.op("[%zu]=", i); a[i] = v; m[i] = v; VF_EV("array write"); c.nt(); break; }
            case 2: { T v = val<T>(c); c.op("fill"); a.fill(v); for(auto& e : m) e = v; VF_EV("fill"); c.nt(); break; }
            case 3: { T v = val<T>(c); c.op("front="); a.front() = v; m.front() = v; VF_EV("array write"); break; }
            case 4: { T v = val<T>(c); c.op("back="); a.back() = v; m.back() = v; VF_EV("array write"); break; }
            case 5: { size_t i = c.rng.below(N); T v = val<T>(c); c.op("data()[%zu]=", i); a.data()[i] = v; m[i] = v; *(a.begin() + c.rng.below(1)) = a.front(); break; }
            case 6: { Boxed<A> d(a); bool eq = true; if(c.rng.coin()) { size_t i = c.rng.below(N); T v = val<T>(c); eq = v == m[i]; (*d)[i] = v; }
                c.op("compare"); const A& ca = a; const A& cd = *d;
                VF_EQ((bool)(ca == cd), eq, "array =="); VF_EQ((bool)(ca != cd), !eq, "array !=");
                if(eq) VF_EV("array compare equal"); else VF_EV("array compare differs"); break; }
            case 7: { Boxed<A> d; d->fill(val<T>(c)); c.op("copy assign"); *d = a; same(c, *d, m, "copy"); (*d)[0] = val<T>(c); same(c, a, m, "source of copy"); break; }
            default: { const A& ca = a; size_t i = c.rng.below(N); VF_REQ(ca[i] == m[i] && ca.front() == m.front() && ca.back() == m.back() && ca.data() == a.data() && ca.cbegin() + N == ca.cend(), "const access");
                VF_REQ(!a.empty() && (size_t)a.max_size() == N, "empty/max_size"); }
        }
        same(c, a, m, "array");
    }
    // span of the array
    estd::span<T> sp(a.data(), N); same(c, sp, m, "span of array");
    c.state(hv(m) ^ mix(N)); c.mark(hv(m));
}
template <class T, size_t N> void toarr(Ctx& c)
{
    struct Box { T a[N]; }; Boxed<Box> b; std::vector<T> m(N); for(size_t i = 0; i < N; ++i) b->a[i] = m[i] = val<T>(c);
    c.op("to_array"); Boxed<estd::array<T, N>> r(estd::to_array(b->a)); same(c, *r, m, "to_array"); c.nt(); c.mark(hv(m));
    estd::span<T> sp(b->a); same(c, sp, m, "span of C array");
    estd::span<T, N> ss(b->a); same(c, ss, m, "static span of C array");
    estd::internal::layer3::buffer<T> bf(b->a); VF_EQ((size_t)bf.size(), N, "buffer size"); VF_EQ((size_t)bf.size_bytes(), N * sizeof(T), "buffer bytes");
    for(size_t i = 0; i < N; ++i) VF_REQ(bf[i] == m[i], "buffer element");
    VF_REQ(bf.data() == b->a && bf.front() == m.front() && bf.back() == m.back(), "buffer ends");
    estd::legacy::layer2::array<T, N> l2(b->a); same(c, l2, m, "layer2 array");
    estd::legacy::layer3::array<T> l3(b->a, N); VF_EQ((size_t)l3.size(), N, "layer3 size");
    size_t i = c.rng.below(N); T v = val<T>(c); l2[i] = v; m[i] = v; i = c.rng.below(N); v = val<T>(c); l3[i] = v; m[i] = v;
    same(c, sp, m, "write through wrapping arrays");
}

template <class T, size_t Long = 0> void spans(Ctx& c)
{
    size_t n = Long ? (c.rng.chance(1, 6) ? Long - c.rng.below(500) : 200 + c.rng.below(700)) : c.rng.chance(1, 8) ? 0 : 1 + c.rng.below(c.rng.coin() ? 8 : 70);
    Raw<T> raw(n); std::vector<T> m(n);
    for(size_t i = 0; i < n; ++i) raw[i] = m[i] = val<T>(c);
    c.op("span<%zu bytes> of %zu", sizeof(T), n);
    estd::span<T> s(raw.data(), n);
    if(n > 256) VF_EV("span past 8 bits"); if(n > 65536) VF_EV("span past 16 bits");
    size_t off = 0, len = n;                 // view [off, off+len) of m
    for(int k = 0; k < 20; ++k)
    {
        std::vector<T> w(m.begin() + off, m.begin() + off + len);
        same(c, s, w, "span");
        VF_REQ(s.data() == raw.data() + off, "data()");
        VF_EQ((size_t)s.size_bytes(), len * sizeof(T), "size_bytes");
        VF_EQ((bool)s.empty(), len == 0, "empty");
        VF_REQ(s.cend() - s.cbegin() == (ptrdiff_t)len && s.end() - s.begin() == (ptrdiff_t)len, "iterators");
        switch(c.rng.below(8))
        {
            case 0: if(len) { size_t i = c.rng.below(len); T v = val<T>(c); c.op("[%zu]=", i); s[i] = v; m[off + i] = v; VF_EV("span write"); c.nt(); } break;
            case 1: if(len) { size_t i = c.rng.below(len); T v = val<T>(c); c.op("*it %zu", i); *(s.begin() + i) = v; m[off + i] = v; VF_EV("span write"); c.nt(); } break;
            case 2: { size_t o = c.rng.below(len + 1), q = c.rng.below(len - o + 1); c.op("subspan(%zu,%zu)", o, q); auto t = s.subspan(o, q);
                VF_REQ(t.data() == raw.data() + off + o && t.size() == q, "subspan(o,n): at %td size %zu", t.data() - raw.data(), (size_t)t.size());
                if(c.rng.chance(1, 3)) { s = t; off += o; len = q; } VF_EV("subspan"); break; }
            case 3: { size_t o = c.rng.below(len + 1); c.op("subspan(%zu)", o); auto t = s.subspan(o);
                VF_REQ(t.data() == raw.data() + off + o && t.size() == len - o, "subspan(o): size %zu expected %zu", (size_t)t.size(), len - o);
                if(c.rng.chance(1, 4)) { s = t; len -= o; off += o; } VF_EV("subspan"); break; }
            case 4: { size_t q = c.rng.below(len + 1); c.op("first(%zu)", q); auto t = s.first(q); VF_REQ(t.data() == s.data() && t.size() == q, "first(n)"); 
                if(len >= 3) { auto t3 = s.template first<3>(); VF_REQ(t3.data() == s.data() && t3.size() == 3, "first<3>"); for(int i = 0; i < 3; ++i) VF_REQ(t3[i] == w[i], "first<3> element"); }
                VF_EV("first"); break; }
            case 5: { c.op("as_bytes"); auto b = estd::as_bytes(s); VF_REQ((const void*)b.data() == s.data() && b.size() == len * sizeof(T), "as_bytes extent");
                VF_REQ(len == 0 || memcmp(b.data(), raw.data() + off, b.size()) == 0, "as_bytes content");
                if(len) { size_t i = c.rng.below(b.size()); VF_REQ((unsigned char)b[i] == ((unsigned char*)(raw.data() + off))[i], "as_bytes element"); }
                auto wb = estd::as_writable_bytes(s); VF_REQ(wb.size() == b.size() && (const void*)wb.data() == b.data(), "as_writable_bytes"); VF_EV("as_bytes"); break; }
            case 6: if(len >= 5) { estd::span<T, 5> st(raw.data() + off); c.op("static<5>"); VF_EQ((size_t)st.size(), 5u, "static size");
                std::vector<T> w5(w.begin(), w.begin() + 5); same(c, st, w5, "static span");
                estd::span<T> dy(st); same(c, dy, w5, "static to dynamic");
                size_t i = c.rng.below(5); T v = val<T>(c); st[i] = v; m[off + i] = v;
                VF_REQ(dy[i] == v, "views of one range disagree");
                auto sb = estd::as_bytes(st); VF_EQ((size_t)sb.size(), 5 * sizeof(T), "static as_bytes"); VF_REQ((const void*)sb.data() == st.data(), "static as_bytes start"); auto swb = estd::as_writable_bytes(st); VF_REQ(swb.size() == 5 * sizeof(T) && (const void*)swb.data() == st.data() && swb.size_bytes() == 5 * sizeof(T), "static as_writable_bytes"); { const size_t k = c.rng.below(swb.size()); const unsigned char old = (unsigned char)swb[k]; swb[k] = (estd::byte)(old ^ 0x40); VF_REQ(((unsigned char*)(raw.data() + off))[k] == (unsigned char)(old ^ 0x40), "write through static as_writable_bytes"); swb[k] = (estd::byte)old; }
                auto ss = st.subspan(2); VF_REQ(ss.size() == 3 && ss.data() == raw.data() + off + 2, "static subspan");
                VF_EV("static to dynamic"); } break;
            default: { c.op("copy/rebuild"); estd::span<T> d(s); same(c, d, w, "copied span"); estd::span<T> e(raw.data() + off, raw.data() + off + len); same(c, e, w, "span(first,last)"); estd::span<T> z; VF_REQ(z.size() == 0 && z.empty(), "default span"); s = e; }
        }
        for(size_t i = 0; i < n; ++i) VF_REQ(raw[i] == m[i], "element %zu of the viewed block changed unexpectedly", i);
        c.state(hv(m) ^ mix(off * 1000 + len));
    }
    c.mark(hv(m)); c.mark(off * 1000 + len);
}
VF_REG("array<u8,1>", 30, arr<uint8_t, 1>);
VF_REG("array<int,5>", 100, arr<int, 5>);
VF_REG("array<long,17>", 80, arr<long, 17>);
VF_REG("array<rec,9>", 80, arr<Rec, 9>);
VF_REG("array<u8,255>", 20, arr<uint8_t, 255>);
VF_REG("array<u16,256>", 20, arr<uint16_t, 256>);
VF_REG("array<u8,300>", 20, arr<uint8_t, 300>);
VF_REG("array<u16,66000>", 1, arr<uint16_t, 66000>); VF_REG("array<rec,300>", 4, arr<Rec, 300>); VF_REG("wrap<u8,300>", 4, toarr<uint8_t, 300>); VF_REG("wrap<u16,66000>", 1, toarr<uint16_t, 66000>);
VF_REG("wrap<int,4>", 60, toarr<int, 4>);
VF_REG("wrap<u8,6>", 60, toarr<uint8_t, 6>);
VF_REG("wrap<rec,3>", 40, toarr<Rec, 3>);
VF_REG("span<u8>", 100, spans<uint8_t>); VF_REG("long span<u8>", 3, spans<uint8_t, 70000>); VF_REG("long span<rec>", 3, spans<Rec, 900>);
VF_REG("span<int>", 100, spans<int>);
VF_REG("span<rec>", 100, spans<Rec>);

VF_GROUP_W(const_views, 60)
{
    size_t n = 1 + c.rng.below(20); Raw<uint8_t> raw(n); std::vector<uint8_t> m(n); for(size_t i = 0; i < n; ++i) raw[i] = m[i] = (uint8_t)c.rng.next();
    c.op("const_buffer %zu", n);
    estd::const_buffer cb(raw.data(), n); same(c, cb, m, "const_buffer");
    estd::mutable_buffer mb(raw.data(), n); same(c, mb, m, "mutable_buffer");
    size_t i = c.rng.below(n); mb[i] ^= 0x55; m[i] ^= 0x55; same(c, cb, m, "const view of a written block");
    auto t = cb.subspan(i); VF_REQ(t.size() == n - i && t[0] == m[i], "const subspan");
    c.nt(); c.mark(hv(m)); c.state(hv(m));
}
// storage whose elements are not constructed: addresses must be those of a plain array
template <class T, unsigned N> void uninit(Ctx& c)
{
    typedef estd::internal::uninitialized_array<T, N> A; Boxed<A> b; c.op("uninitialized<%zu,%u>", sizeof(T), N);
    VF_EQ(sizeof(A), sizeof(T) * N, "sizeof uninitialized_array");
    std::vector<T> m(N);
    for(unsigned i = 0; i < N; ++i) { new (&(*b)[i]) T(m[i] = val<T>(c)); VF_REQ(&(*b)[i] == b->data() + i, "element address"); }
    for(int k = 0; k < 10; ++k) { size_t i = c.rng.below(N); T v = val<T>(c); (*b)[i] = v; m[i] = v; same(c, *b, m, "uninitialized_array"); }
    c.nt(); c.mark(hv(m));
}
// arrays of different lengths, and of different but comparable element types
template <class T, size_t N, class T2, size_t N2> void unlike(Ctx& c)
{
    Boxed<estd::array<T, N>> a; Boxed<estd::array<T2, N2>> b; bool eq = N == N2;
    for(size_t i = 0; i < N; ++i) (*a)[i] = (T)c.rng.below(100);
    for(size_t i = 0; i < N2; ++i) (*b)[i] = i < N ? (T2)(*a)[i] : (T2)c.rng.below(2);
    size_t n = N < N2 ? N : N2; if(c.rng.coin()) { size_t i = c.rng.chance(1, 3) ? n - 1 : c.rng.below(n); (*b)[i] = (T2)((*b)[i] + 1); eq = false; }
    c.op("array of %zu against array of %zu", N, N2); c.nt(); c.mark(hash_bytes(a->data(), N * sizeof(T))); c.mark(hash_bytes(b->data(), N2 * sizeof(T2)));
    const auto& x = *a; const auto& y = *b;
    VF_EQ((bool)(x == y), eq, "array =="); VF_EQ((bool)(y == x), eq, "array == (turned round)"); VF_EQ((bool)(x != y), !eq, "array !="); VF_EQ((bool)(y != x), !eq, "array != (turned round)");
    VF_EV(N == N2 ? "arrays of different types compared" : "arrays of different lengths compared");
}
VF_REG("unlike 2-3", 20, unlike<int, 2, int, 3>); VF_REG("unlike 5-1", 20, unlike<uint8_t, 5, uint8_t, 1>); VF_REG("unlike 255-256", 10, unlike<uint8_t, 255, uint8_t, 256>); VF_REG("unlike 300-44", 10, unlike<uint8_t, 300, uint8_t, 44>);
VF_REG("unlike u8-long", 20, unlike<uint8_t, 4, long, 4>); VF_REG("unlike int-u16", 20, unlike<int, 7, uint16_t, 9>);
VF_REG("uninit<rec,7>", 40, uninit<Rec, 7>);
VF_REG("uninit<int,3>", 40, uninit<int, 3>);
}
