#include "vf.h"
#include <estd/charconv.h>
#include <estd/string.h>
#include <charconv>
#include <limits>
#include <string>
using namespace vf;
#define TXT(g, w, what) do { std::string g_ = (g), w_ = (w); VF_REQ(g_ == w_, "%s: '%s', expected '%s'", what, g_.c_str(), w_.c_str()); } while(0)
namespace cc {
template <class T> T value(Ctx& c, int base)
{
    typedef std::make_unsigned_t<T> U;
    U u;
    switch(c.rng.below(6))
    {
        case 0: u = (U)c.rng.below(40); break;
        case 1: u = (U)std::numeric_limits<T>::max() - (U)c.rng.below(3); break;
        case 2: u = (U)std::numeric_limits<T>::min() + (U)c.rng.below(3); break;
        case 3: { u = 1; unsigned k = c.rng.below(65); while(k--) { U n = (U)(u * (U)base); if(n / (U)base != u) break; u = n; } u = (U)(u - (U)c.rng.below(2)); break; }
        case 4: u = (U)(c.rng.next() >> c.rng.below(64)); break;
        default: u = (U)c.rng.next();
    }
    T v = (T)u;
    if(std::is_signed<T>::value && c.rng.coin()) v = (T)(U)(0 - (U)v);
    return v;
}
template <class T> std::string ref(T v, int base) { char b[80]; auto r = std::to_chars(b, b + 80, v, base); return std::string(b, r.ptr); }
inline std::string up(std::string s) { for(char& c : s) if(c >= 'a' && c <= 'z') c -= 32; return s; }
// the buffer on offer sits inside a larger canary block
struct Slot
{
    size_t off, n; Raw<char> r;
    Slot(size_t off_, size_t n_, size_t tail) : off(off_), n(n_), r(off_ + n_ + tail, 0x5A) {}
    char* b() { return r.data() + off; } char* e() { return b() + n; }
    bool intact() { for(size_t i = 0; i < off; ++i) if(r[i] != 0x5A) return false; for(size_t i = off + n; i < r.n; ++i) if(r[i] != 0x5A) return false; return true; }
};
inline const char* ec(estd::errc e) { return e == 0 ? "ok" : e == estd::errc::invalid_argument ? "invalid" : e == estd::errc::result_out_of_range ? "range" : e == estd::errc::value_too_large ? "too_large" : "other"; }
inline const char* ec(std::errc e) { return e == std::errc() ? "ok" : e == std::errc::invalid_argument ? "invalid" : e == std::errc::result_out_of_range ? "range" : e == std::errc::value_too_large ? "too_large" : "other"; }

template <class R> void check_out(Ctx& c, const char* what, Slot& s, R r, const std::string& want, bool opt)
{
    VF_REQ(s.intact(), "%s: wrote outside the buffer of %zu offered for '%s'", what, s.n, want.c_str());
    if(want.size() > s.n)
    {
        VF_EV("to_chars refused");
        VF_REQ(r.ec == estd::errc::value_too_large, "%s: buffer of %zu for '%s' reported %s", what, s.n, want.c_str(), ec(r.ec));
        if(!opt) { VF_REQ(r.ptr == s.e(), "%s: failed with ptr at %zd, expected the end %zu", what, r.ptr - s.b(), s.n); }
        else VF_REQ(r.ptr >= s.b() && r.ptr <= s.e(), "%s: failed with ptr outside the buffer", what);
        return;
    }
    if(want.size() == s.n) VF_EV("to_chars exact fit");
    VF_REQ(r.ec == 0, "%s: buffer of %zu for '%s' reported %s", what, s.n, want.c_str(), ec(r.ec));
    std::string got = opt ? std::string(r.ptr, s.e()) : std::string(s.b(), r.ptr);
    TXT(got, want, what);
    VF_EV("to_chars ok");
}

// any integer to text in any base and any buffer, and back
template <class T, unsigned B> void fixed_base(Ctx& c, T v, size_t n, size_t off, size_t tail)
{
    std::string want = ref(v, B);
    Slot s(off, n, tail);
    check_out(c, "detail::to_chars<base>", s, estd::detail::to_chars<B>(s.b(), s.e(), v), want, true);
    T back = (T)~v;
    Raw<char> t(want.size()); memcpy(t.data(), want.data(), want.size());
    auto r = estd::internal::from_chars_integer<B>((const char*)t.data(), (const char*)t.data() + t.n, back);
    VF_REQ(r.ec == 0 && r.ptr == t.data() + t.n, "from_chars_integer<%u> of '%s': %s at %zd", B, want.c_str(), ec(r.ec), r.ptr - t.data());
    VF_EQ(back, v, "from_chars_integer<base> round trip");
    VF_EV("fixed base");
}
template <class T> void one(Ctx& c, T v, int base)
{
    std::string want = ref(v, base);
    size_t n = c.rng.below(4) == 0 ? want.size() : c.rng.below(3) == 0 ? c.rng.below(70) : want.size() - 1 + c.rng.below(3);
    if(c.rng.chance(1, 8)) n = c.rng.below(want.size() + 1);
    size_t off = c.rng.coin() ? 0 : 3, tail = c.rng.coin() ? 0 : 3;
    c.op("%lld base %d into %zu (needs %zu)", (long long)v, base, n, want.size());
    { Slot s(off, n, tail); check_out(c, "to_chars", s, estd::to_chars(s.b(), s.e(), v, base), want, false); }
    { Slot s(off, n, tail); check_out(c, "to_chars_opt", s, estd::to_chars_opt(s.b(), s.e(), v, base), want, true); }
    { bool u = c.rng.coin(); Slot s(off, n, tail); check_out(c, u ? "to_chars_opt upper" : "to_chars_opt lower", s, estd::to_chars_opt(s.b(), s.e(), v, base, u), u ? up(want) : want, true); if(u) VF_EV("upper case"); }
    { Slot s(off, n, tail); check_out(c, "to_chars_exp", s, estd::to_chars_exp(s.b(), s.e(), v, base), want, false); }
    if(base == 10)
    { Slot s(off, n, tail); check_out(c, "to_chars default base", s, estd::to_chars(s.b(), s.e(), v), want, false); }
    switch(base)
    {
        case 2: fixed_base<T, 2>(c, v, n, off, tail); break;
        case 3: fixed_base<T, 3>(c, v, n, off, tail); break;
        case 8: fixed_base<T, 8>(c, v, n, off, tail); break;
        case 10: fixed_base<T, 10>(c, v, n, off, tail); break;
        case 11: fixed_base<T, 11>(c, v, n, off, tail); break;
        case 16: fixed_base<T, 16>(c, v, n, off, tail); break;
        case 36: fixed_base<T, 36>(c, v, n, off, tail); break;
    }
    // back, from either case, bare or followed by something that is no digit
    std::string in = c.rng.coin() ? want : up(want);
    size_t digits = in.size();
    static const char tails[] = " x.-+\0:@`{/\x80\xff_";
    if(c.rng.coin())
    {
        char t = tails[c.rng.below(sizeof tails - 1)];
        if(base <= 10 || (t != 'x' )) { in += t; if(c.rng.coin()) in += '1'; }
    }
    Raw<char> t(in.size()); memcpy(t.data(), in.data(), in.size());
    T back = (T)~v;
    auto r = estd::from_chars(t.data(), t.data() + t.n, back, base);
    VF_REQ(r.ec == 0 && r.ptr == t.data() + digits, "from_chars of %s base %d: %s at %zd", show(in).c_str(), base, ec(r.ec), r.ptr - t.data());
    VF_EQ(back, v, "from_chars round trip");
    VF_EV("round trip");
    if(v < 0) VF_EV("negative");
    if(v == std::numeric_limits<T>::min() && v < 0) VF_EV("most negative");
    if(v == std::numeric_limits<T>::max()) VF_EV("most positive");
}
template <class T> void values(Ctx& c)
{
    for(int i = 0; i < 12; ++i)
    {
        int base = c.rng.coin() ? 2 + (int)c.rng.below(35) : c.rng.pick({2, 8, 10, 10, 16, 36});
        one<T>(c, value<T>(c, base), base);
        c.nt();
    }
}
inline std::string garbage(Ctx& c, int base)
{
    static const char dg[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    std::string s;
    if(c.rng.chance(1, 3)) s += '-';
    if(c.rng.chance(1, 12)) s += c.rng.pick({'+', ' ', '-', '\t'});
    if(c.rng.chance(1, 4)) s.append(c.rng.below(5), '0');
    static const char edge[] = "/:@[`{-+ .xX\0\x80\xff\xb0";
    size_t n = c.rng.chance(1, 3) ? c.rng.below(3) : c.rng.chance(1, 3) ? c.rng.below(70) : c.rng.below(22);
    for(size_t i = 0; i < n; ++i)
    {
        unsigned m = c.rng.below(40);
        if(m == 0) s += edge[c.rng.below(sizeof edge - 1)];
        else if(m == 1) s += (char)c.rng.below(256);
        else if(m == 2) s += dg[std::min(35, base - 1 + (int)c.rng.below(2))];
        else { char d = dg[c.rng.below(base)]; if(d >= 'a' && c.rng.coin()) d -= 32; s += d; }
    }
    if(c.rng.chance(1, 3)) s += edge[c.rng.below(sizeof edge - 1)];
    return s;
}
template <class T> std::string near_limit(Ctx& c, int base)
{
    __int128 v = c.rng.coin() ? (__int128)std::numeric_limits<T>::max() + (int)c.rng.below(5) - 2 : (__int128)std::numeric_limits<T>::min() + (int)c.rng.below(5) - 2;
    bool neg = v < 0; if(neg) v = -v;
    std::string s; do { int d = (int)(v % base); s += d < 10 ? '0' + d : (c.rng.coin() ? 'a' : 'A') + d - 10; v /= base; } while(v);
    if(c.rng.chance(1, 4)) s += "00";
    if(c.rng.chance(1, 4)) { s.insert(s.begin(), '0'); }    // an extra low digit
    if(neg) s += '-';
    std::string r(s.rbegin(), s.rend());
    if(c.rng.chance(1, 4)) r += c.rng.pick({' ', '-', 'z', '7', '\0'});
    return r;
}
template <class T> void parse(Ctx& c)
{
    for(int i = 0; i < 20; ++i)
    {
        int base = c.rng.coin() ? 2 + (int)c.rng.below(35) : c.rng.pick({2, 8, 10, 10, 16, 36});
        std::string in = c.rng.coin() ? garbage(c, base) : near_limit<T>(c, base);
        Raw<char> t(in.size()); memcpy(t.data(), in.data(), in.size());
        const char* f = t.data(), *l = f + t.n;
        T init = value<T>(c, base), got = init, want = init;
        c.op("parse %s base %d", show(in).c_str(), base);
        auto w = std::from_chars(f, l, want, base);
        auto r = estd::from_chars(f, l, got, base);
        VF_REQ(std::string(ec(r.ec)) == ec(w.ec), "from_chars(%s, base %d): %s, expected %s", show(in).c_str(), base, ec(r.ec), ec(w.ec));
        VF_REQ(r.ptr == w.ptr, "from_chars(%s, base %d): stopped at %zd, expected %zd", show(in).c_str(), base, r.ptr - f, w.ptr - f);
        VF_EQ(got, want, "from_chars value");
        if(base == 10) { T g2 = init; auto r2 = estd::from_chars(f, l, g2); VF_REQ(r2.ptr == w.ptr && std::string(ec(r2.ec)) == ec(w.ec) && g2 == want, "from_chars without a base differs"); }
        VF_EV(ec(w.ec) == std::string("ok") ? "parsed" : ec(w.ec) == std::string("range") ? "out of range" : "invalid text");
        if(w.ec == std::errc() && w.ptr != l) VF_EV("stopped early");
        c.nt();
    }
}
template <class T> void strings(Ctx& c)
{
    for(int i = 0; i < 6; ++i)
    {
        T v = value<T>(c, 10);
        std::string want = ref(v, 10);
        c.op("to_string %s", want.c_str());
        {
            auto s = estd::to_string(v);
            VF_EQ(s.size(), want.size(), "to_string size");
            std::string g; for(char ch : s) g += ch; TXT(g, want, "to_string");
            estd::layer1::string<64> acc = "v="; acc += s; TXT(std::string(acc.data(), acc.size()), "v=" + want, "appending to_string");
            VF_REQ(s == want.c_str(), "to_string compares unequal to its text");
        }
        { estd::layer1::string<24> s = "previous content here"; estd::to_string(s, v); TXT(std::string(s.data(), s.size()), want, "to_string into layer1 string"); VF_EQ(s.size(), want.size(), "size"); }
        {
            char buf[48]; memset(buf, 0x5A, sizeof buf);
            auto r = estd::to_string_opt(buf, v, 10u); VF_REQ(r.ec == 0, "to_string_opt failed"); TXT(std::string(r.ptr), want, "to_string_opt");
            VF_REQ(r.ptr + want.size() == buf + 47, "to_string_opt does not end at the buffer's end");
            memset(buf, 0x5A, sizeof buf);
            auto q = estd::to_string_opt<16>(buf, v); VF_REQ(q.ec == 0, "to_string_opt<16> failed"); TXT(std::string(q.ptr), ref(v, 16), "to_string_opt<16>");
        }
        {
            struct { char pre[4]; char buf[4]; char post[4]; } g; memset(&g, 0x5A, sizeof g);
            int base = 2 + (int)c.rng.below(35);
            auto r = estd::to_string_opt(g.buf, v, (unsigned)base);
            std::string w = ref(v, base);
            if(w.size() > 3) { VF_REQ(r.ec == estd::errc::value_too_large, "to_string_opt: 4 byte buffer for '%s' reported %s", w.c_str(), ec(r.ec)); }
            else { VF_REQ(r.ec == 0, "to_string_opt: 4 byte buffer for '%s' reported %s", w.c_str(), ec(r.ec)); TXT(std::string(r.ptr), w, "to_string_opt small"); }
            for(int k = 0; k < 4; ++k) VF_REQ(g.pre[k] == 0x5A && g.post[k] == 0x5A, "to_string_opt wrote outside its buffer");
        }
        VF_EV("to_string");
        c.nt();
    }
}
// every 8 and 16 bit value, a slice per case
template <class T> void sweep(Ctx& c)
{
    int base = 2 + (int)c.rng.below(35);
    int lo = std::numeric_limits<T>::min(), span = std::numeric_limits<T>::max() - lo + 1, step = span > 256 ? 256 : span, at = lo + (int)c.rng.below(span / step) * step;
    for(int k = 0; k < step; ++k)
    {
        T v = (T)(at + k), back = (T)~v;
        std::string want = ref(v, base);
        Slot s(0, want.size(), 0);
        c.op("%d base %d", (int)v, base);
        auto r = estd::to_chars(s.b(), s.e(), v, base);
        VF_REQ(r.ec == 0 && r.ptr == s.e() && std::string(s.b(), s.e()) == want, "to_chars of %d base %d: '%s', expected '%s'", (int)v, base, std::string(s.b(), s.e()).c_str(), want.c_str());
        auto q = estd::from_chars(s.b(), s.e(), back, base);
        VF_REQ(q.ec == 0 && q.ptr == s.e() && back == v, "from_chars of '%s' base %d: %d", want.c_str(), base, (int)back);
    }
    VF_EVN("swept values", step);
    c.nt();
}
}
