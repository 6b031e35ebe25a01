#include "d_loc.h"
namespace ng {
struct Expect { __int128 v; iostate err; size_t used; };
inline int digit(unsigned char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99; }
// the value, state and position the standard facet reports for  -?digits  (no + sign, no base prefix)
template <class T> Expect expect(const std::string& s, int base)
{
    Expect r{0, goodb, 0};
    size_t i = 0; bool neg = false;
    if(std::is_signed<T>::value && i < s.size() && s[i] == '-') { neg = true; ++i; }
    size_t d0 = i; bool over = false; __int128 v = 0;
    while(i < s.size() && digit(s[i]) < base)
    {
        if(!over) { v = v * base + digit(s[i]); if((neg ? -v : v) > (__int128)std::numeric_limits<T>::max() || (neg ? -v : v) < (__int128)std::numeric_limits<T>::min()) over = true; }
        ++i;
    }
    r.used = i;
    if(i == s.size()) r.err |= eofb;
    if(i == d0) { r.err |= failb; r.v = 0; VF_EV("no digits"); }
    else if(over) { r.err |= failb; r.v = neg ? (__int128)std::numeric_limits<T>::min() : (__int128)std::numeric_limits<T>::max(); VF_EV("overflow"); }
    else r.v = neg ? -v : v;
    return r;
}
template <class T> std::string text(Ctx& c, int base)
{
    std::string s;
    static const char dg[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    auto put = [&](int d) { char ch = dg[d]; if(ch >= 'a' && c.rng.coin()) ch -= 32; s += ch; };
    switch(c.rng.below(4))
    {
        case 0: case 1:
        {
            __int128 v = (c.rng.coin() ? (__int128)std::numeric_limits<T>::max() : (__int128)std::numeric_limits<T>::min()) + (int)c.rng.below(5) - 2;
            if(c.rng.chance(1, 3)) v = v / (int)(1 + c.rng.below(20));
            bool neg = v < 0; if(neg) v = -v;
            std::string r; do { r += dg[(int)(v % base)]; v /= base; } while(v);
            if(neg) s += '-';
            if(c.rng.chance(1, 4)) s += "00";
            for(auto p = r.rbegin(); p != r.rend(); ++p) put(digit(*p));
            if(c.rng.chance(1, 6)) { size_t n = 1 + c.rng.below(4); while(n--) put(c.rng.below(base)); }
            break;
        }
        default:
        {
            if(c.rng.chance(1, 3)) s += '-';
            size_t n = c.rng.chance(1, 4) ? 0 : c.rng.chance(1, 4) ? c.rng.below(70) : c.rng.below(9);
            while(n--) put(c.rng.below(base));
        }
    }
    static const char tails[] = " x,;:/@[`{+-gG.\0\x80\xff\n";
    if(c.rng.coin()) { s += tails[c.rng.below(sizeof tails - 1)]; size_t n = c.rng.below(4); while(n--) put(c.rng.below(base)); }
    return s;
}
template <class T> void check(Ctx& c, const char* what, const std::string& in, int base, T v, iostate err, size_t used)
{
    Expect e = expect<T>(in, base);
    VF_REQ(v == (T)e.v, "%s of %s base %d: value %lld, expected %lld", what, show(in).c_str(), base, (long long)v, (long long)e.v);
    VF_REQ(err == e.err, "%s of %s base %d: state %d, expected %d", what, show(in).c_str(), base, (int)err, (int)e.err);
    VF_REQ(used == e.used, "%s of %s base %d: stopped at %zu, expected %zu", what, show(in).c_str(), base, used, e.used);
    if(e.err == goodb) VF_EV("parsed up to a delimiter"); if(e.err == eofb) VF_EV("parsed to the end");
}
template <int base, class T> void iterated(Ctx& c, const std::string& in, T init)
{
    // one character at a time
    estd::iterated::num_get<base, char, classic> n;
    iostate err = goodb; T v = init; size_t k = 0; bool done = false;
    Expect e = expect<T>(in, base);
    for(; k < in.size(); ++k) if((done = n.get(in[k], err, v))) break;
    if(k) VF_REQ(v == (T)e.v, "iterated num_get of %s base %d: value %lld, expected %lld", show(in).c_str(), base, (long long)v, (long long)e.v);
    VF_REQ(k == e.used, "iterated num_get of %s base %d: stopped at %zu, expected %zu", show(in).c_str(), base, k, e.used);
    if(done) VF_REQ(err == e.err, "iterated num_get of %s: state %d, expected %d", show(in).c_str(), (int)err, (int)e.err);
    else VF_REQ(!(err & eofb) && ((err & failb) == 0) == (!(e.err & failb) || e.used == 0 || in == "-"), "iterated num_get of %s: state %d", show(in).c_str(), (int)err);
    // in pieces, each its own exact size buffer
    estd::iterated::num_get<base, char, classic> p; T pv = init; size_t at = 0; done = false; iostate perr = goodb;
    while(at < in.size() && !done)
    {
        size_t len = std::min(in.size() - at, (size_t)1 + c.rng.below(5));
        Raw<char> b(len); memcpy(b.data(), in.data() + at, len);
        const char* i = b.data(), *l = i + len;
        perr = goodb;
        while(!(done = p.get(i, l, perr, pv))) ;
        at += i - b.data();
        if((perr & eofb) && i == l) { done = false; VF_EV("input split"); }
        VF_REQ(i >= b.data() && i <= l, "left the piece");
    }
    if(in.size()) VF_REQ(pv == (T)e.v, "split num_get of %s base %d: value %lld, expected %lld", show(in).c_str(), base, (long long)pv, (long long)e.v);
    VF_REQ(at == e.used, "split num_get of %s base %d: stopped at %zu, expected %zu", show(in).c_str(), base, at, e.used);
}
template <class T> T seed(Ctx& c) { return (T)c.rng.next(); }
template <class T> void integers(Ctx& c)
{
    for(int i = 0; i < 10; ++i)
    {
        int base = c.rng.pick({8, 10, 10, 16});
        std::string in = text<T>(c, base);
        Raw<char> b(in.size()); memcpy(b.data(), in.data(), in.size());
        const char* f = b.data(), *l = f + b.n;
        c.op("num_get %s base %d", show(in).c_str(), base);
        auto flag = base == 8 ? estd::ios_base::oct : base == 16 ? estd::ios_base::hex : estd::ios_base::dec;
        T v;
        {
            estd::detail::basic_istream<estd::layer1::stringbuf<32>> fmt; fmt.setf(flag, estd::ios_base::basefield);
            estd::num_get<char, const char*> n; iostate err = goodb; v = seed<T>(c);
            const char* r = n.get(f, l, fmt, err, v); check(c, "num_get", in, base, v, err, r - f);
        }
        {
            auto n = estd::use_facet<estd::num_get<char, const char*>>(classic()); iostate err = goodb; v = seed<T>(c);
            const char* r = n.get(f, l, flag, err, v); check(c, "num_get by facet", in, base, v, err, r - f);
        }
        {
            wchar_t* w0; Raw<wchar_t> w(in.size()); w0 = w.data(); for(size_t k = 0; k < in.size(); ++k) w0[k] = (unsigned char)in[k];
            estd::detail::basic_istream<estd::layer1::basic_stringbuf<wchar_t, 32>> fmt; fmt.setf(flag, estd::ios_base::basefield);
            estd::num_get<wchar_t, const wchar_t*> n; iostate err = goodb; v = seed<T>(c);
            const wchar_t* r = n.get((const wchar_t*)w0, (const wchar_t*)w0 + w.n, fmt, err, v); check(c, "wide num_get", in, base, v, err, r - w0);
        }
        if(in.size() < 90 && in.find('\0') == std::string::npos && in.find('\xff') == std::string::npos)
        {
            typedef estd::layer1::stringbuf<100> sb_t; sb_t sb(in.c_str());
            typedef estd::istreambuf_iterator<sb_t> it; it first(sb), last;
            estd::detail::basic_istream<estd::layer1::stringbuf<32>> fmt; fmt.setf(flag, estd::ios_base::basefield);
            estd::num_get<char, it> n; iostate err = goodb; v = seed<T>(c);
            it r = n.get(first, last, fmt, err, v);
            std::string rest; for(; r != last; ++r) rest += *r;
            VF_REQ(rest.size() <= in.size(), "more characters left than given"); check(c, "num_get over a streambuf", in, base, v, err, in.size() - rest.size());
            VF_EV("over a streambuf");
        }
        v = seed<T>(c);
        if(base == 8) iterated<8>(c, in, v); else if(base == 10) iterated<10>(c, in, v); else iterated<16>(c, in, v);
        c.nt();
    }
}
}
