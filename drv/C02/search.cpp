#include "vf.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <string_view>
#include <sstream>
using namespace vf;
namespace {
typedef std::string_view sv;

std::string text(Ctx& c, size_t max, bool nul_ok)
{
    if(max > 60000 && c.rng.chance(9, 10)) max = 2500;
    size_t n = c.rng.chance(1, 8) ? 0 : c.rng.chance(1, 8) ? max : c.rng.below(max + 1);
    if(max < 256 && c.rng.coin() && n > 6) n = c.rng.below(7);
    unsigned mode = c.rng.below(4);
    std::string r;
    for(size_t i = 0; i < n; ++i)
    {
        int ch = mode == 0 ? 'a' + (int)c.rng.below(2) : mode == 1 ? 'a' + (int)c.rng.below(4) : mode == 2 ? (int)c.rng.below(256) : 0x7e + (int)c.rng.below(4);
        if(!ch && !nul_ok) ch = 1;
        r += (char)ch;
    }
    return r;
}
std::string pattern(Ctx& c, const std::string& t, bool nul_ok)
{
    switch(c.rng.below(6))
    {
        case 0: return text(c, 5, nul_ok);
        case 1: return t;
        case 2: return t + text(c, 3, nul_ok);
        default:
        {
            if(t.empty()) return text(c, 3, nul_ok);
            size_t a = c.rng.below(t.size()), n = c.rng.below(t.size() - a + 1);
            if(c.rng.chance(1, 3)) a = 0;
            if(c.rng.chance(1, 3)) { a = t.size() - n; }
            std::string p = t.substr(a, n);
            if(p.size() && c.rng.chance(1, 4)) { char& x = p[c.rng.below(p.size())]; x ^= 1; if(!x && !nul_ok) x = 2; }
            return p;
        }
    }
}
std::string brief(const std::string& s) { return s.size() > 100 ? show(s.substr(0, 40)) + "...(" + std::to_string(s.size()) + ")" : show(s); }
int sgn(int v) { return v < 0 ? -1 : v > 0; }

// exact-size, NUL-less copy and its NUL terminated sibling
struct Bytes { Raw<char> r; explicit Bytes(const std::string& s) : r(s.size()) { memcpy(r.data(), s.data(), s.size()); } const char* p() { return r.data(); } };
struct CStr { Raw<char> r; explicit CStr(const std::string& s) : r(s.size() + 1) { memcpy(r.data(), s.c_str(), s.size() + 1); } const char* p() { return r.data(); } };

template <class S> void cmp_pos(Ctx& c, const char* what, size_t got, typename S::size_type npos, size_t want)
{
    if(want == sv::npos) { VF_REQ(got == (size_t)npos, "%s: got %zu, expected not found", what, got); }
    else VF_REQ(got == want, "%s: got %zu, expected %zd", what, got, (ssize_t)want);
}

// every query through `s` (an object whose characters are t)
template <class S> void queries(Ctx& c, S& s, const std::string& t, bool nul_ok)
{
    typedef typename S::size_type size_type;
    const size_type npos = S::npos;
    sv r(t);
    VF_EQ((size_t)s.size(), t.size(), "size");
    VF_EQ((size_t)s.length(), t.size(), "length");
    VF_EQ((bool)s.empty(), t.empty(), "empty");
    if(t.empty()) VF_EV("empty text");
    for(int q = 0, rounds = t.size() > 3000 ? 12 : 24; q < rounds; ++q)
    {
        std::string p = pattern(c, t, nul_ok);
        // longer than the size type of the text can count: never found, never equal
        const bool far = sizeof(size_type) < 4 && c.rng.chance(1, sizeof(size_type) == 1 ? 8 : 200); const size_t wrap = (size_t)1 << (8 * (sizeof(size_type) & 3));
        if(far) { p += std::string(wrap - (c.rng.coin() ? 0 : p.size()), (char)('a' + c.rng.below(4))); VF_EV("pattern beyond the size type"); }
        if(!far && p.size() > 280 && t.size() > 3000) p.resize(257 + c.rng.below(24));
        if(t.size() > 256) { VF_EV("text past 8 bits"); if(p.size() > 256) VF_EV("pattern past 8 bits"); } if(t.size() > 65536) VF_EV("text past 16 bits");
        bool pnul = p.find('\0') != std::string::npos;
        Bytes pb(p); CStr pz(p);
        sv ps(p);
        if(p.empty()) VF_EV("empty pattern");
        if(p.size() && t.size()) c.nt();
        size_t pos = c.rng.chance(1, 3) ? sv::npos : c.rng.below(t.size() + 3);
        if(far && pos != sv::npos && c.rng.coin()) pos += wrap; size_t epos = pos == sv::npos ? npos : pos;
        size_t pos0 = c.rng.below(t.size() + 3) + (far && c.rng.coin() ? wrap : 0);
        bool cs = !pnul && c.rng.coin();    // use C string form
        estd::string_view pv(pb.p(), p.size());
        bool vw = p.size() && c.rng.coin();
        c.mark(mix(hash_bytes(p.data(), p.size()) + pos * 31 + pos0));
        switch(c.rng.below(19))
        {
            case 0: case 1: { c.op("find %s at %zu", brief(p).c_str(), pos0); size_t w = r.find(ps, pos0);
                size_t g = cs ? s.find(pz.p(), pos0) : vw ? s.find(pv, pos0) : s.find(pb.p(), pos0, p.size());
                cmp_pos<S>(c, "find", g, npos, w); if(w == sv::npos) VF_EV("find miss"); else VF_EV("find hit"); break; }
            case 2: { c.op("find0 %s", brief(p).c_str()); size_t w = r.find(ps);
                cmp_pos<S>(c, "find", cs ? s.find(pz.p()) : vw ? s.find(pv) : s.find(pb.p(), 0, p.size()), npos, w); break; }
            case 3: case 4: { c.op("rfind %s at %zd", brief(p).c_str(), (ssize_t)pos); size_t w = r.rfind(ps, pos);
                cmp_pos<S>(c, "rfind", cs ? s.rfind(pz.p(), epos) : vw ? s.rfind(pv, epos) : s.rfind(pb.p(), epos, p.size()), npos, w); if(w != sv::npos) VF_EV("rfind hit"); break; }
            case 5: { c.op("rfind0 %s", brief(p).c_str()); if(cs) cmp_pos<S>(c, "rfind", s.rfind(pz.p()), npos, r.rfind(ps)); else if(vw) cmp_pos<S>(c, "rfind", s.rfind(pv), npos, r.rfind(ps)); break; }
            case 6: { c.op("find_first_of %s at %zu", brief(p).c_str(), pos0); size_t w = r.find_first_of(ps, pos0);
                cmp_pos<S>(c, "find_first_of", cs ? s.find_first_of(pz.p(), pos0) : vw ? s.find_first_of(pv, pos0) : s.find_first_of(pb.p(), pos0, p.size()), npos, w); break; }
            case 7: case 8: { c.op("find_last_of %s at %zd", brief(p).c_str(), (ssize_t)pos); size_t w = r.find_last_of(ps, pos);
                cmp_pos<S>(c, "find_last_of", cs ? s.find_last_of(pz.p(), epos) : vw ? s.find_last_of(pv, epos) : s.find_last_of(pb.p(), epos, p.size()), npos, w); if(w != sv::npos) VF_EV("find_last_of hit"); break; }
            case 9: { char ch = t.size() && c.rng.coin() ? t[c.rng.below(t.size())] : (char)c.rng.below(256);
                c.op("find char %02x at %zu", (unsigned char)ch, pos0); cmp_pos<S>(c, "find(char)", s.find(ch, pos0), npos, r.find(ch, pos0)); break; }
            case 10: case 11: { c.op("compare %s", brief(p).c_str()); int w = sgn(r.compare(ps));
                int g = cs ? s.compare(pz.p()) : s.compare(pv);
                VF_EQ(sgn(g), w, "compare");
                if(w < 0) VF_EV("less"); else if(w > 0) VF_EV("greater"); else VF_EV("equal"); break; }
            case 12: { c.op("== %s", brief(p).c_str()); bool w = r == ps;
                VF_EQ((bool)(s == pv), w, "== view");
                VF_EQ((bool)(pv == s), w, "view ==");
                if(!pnul) { VF_EQ((bool)(s == pz.p()), w, "== C string"); VF_EQ((bool)(pz.p() == s), w, "C string =="); } break; }
            case 13: { c.op("starts_with %s", brief(p).c_str()); bool w = t.compare(0, p.size(), p) == 0 && p.size() <= t.size();
                VF_EQ((bool)(cs ? s.starts_with(pz.p()) : s.starts_with(pv)), w, "starts_with");
                char ch = p.size() ? p[0] : 'a'; VF_EQ((bool)s.starts_with(ch), t.size() && t[0] == ch, "starts_with(char)");
                if(w && p.size()) VF_EV("prefix"); break; }
            case 14: { c.op("ends_with %s", brief(p).c_str()); bool w = p.size() <= t.size() && t.compare(t.size() - p.size(), p.size(), p) == 0;
                VF_EQ((bool)(cs ? s.ends_with(pz.p()) : s.ends_with(pv)), w, "ends_with");
                char ch = p.size() ? p.back() : 'a'; VF_EQ((bool)s.ends_with(ch), t.size() && t.back() == ch, "ends_with(char)");
                if(w && p.size()) VF_EV("suffix"); break; }
            case 16: { c.op("default positions %s", brief(p).c_str()); char ch = t.size() && c.rng.coin() ? t[c.rng.below(t.size())] : (char)c.rng.below(256); cmp_pos<S>(c, "find(char)", s.find(ch), npos, r.find(ch));
                if(!pnul) { cmp_pos<S>(c, "find", s.find(pz.p()), npos, r.find(ps)); cmp_pos<S>(c, "rfind", s.rfind(pz.p()), npos, r.rfind(ps)); cmp_pos<S>(c, "find_first_of", s.find_first_of(pz.p()), npos, r.find_first_of(ps)); cmp_pos<S>(c, "find_last_of", s.find_last_of(pz.p()), npos, r.find_last_of(ps)); }
                if(p.size()) { cmp_pos<S>(c, "find", s.find(pv), npos, r.find(ps)); cmp_pos<S>(c, "rfind", s.rfind(pv), npos, r.rfind(ps)); cmp_pos<S>(c, "find_first_of", s.find_first_of(pv), npos, r.find_first_of(ps)); cmp_pos<S>(c, "find_last_of", s.find_last_of(pv), npos, r.find_last_of(ps)); } VF_EV("default position"); break; }
            case 17: { if(p.size() > 280) p.resize(280); ps = sv(p); Boxed<estd::layer1::string<300, false> > q; q->append(pb.p(), p.size()); estd::layer1::string<300, false>& o = *q; c.op("object argument %s at %zu/%zd", brief(p).c_str(), pos0, (ssize_t)pos);
                cmp_pos<S>(c, "find", s.find(o, pos0), npos, r.find(ps, pos0)); cmp_pos<S>(c, "rfind", s.rfind(o, epos), npos, r.rfind(ps, pos)); cmp_pos<S>(c, "find_first_of", s.find_first_of(o, pos0), npos, r.find_first_of(ps, pos0)); cmp_pos<S>(c, "find_last_of", s.find_last_of(o, epos), npos, r.find_last_of(ps, pos)); VF_EQ(sgn(s.compare(o)), sgn(r.compare(ps)), "compare with a string"); VF_EQ((bool)(s == o), r == ps, "== string"); VF_EQ((bool)s.starts_with(o), t.compare(0, p.size(), p) == 0 && p.size() <= t.size(), "starts_with(string)"); VF_EV("string argument"); break; }
            default: { size_t n = c.rng.below(t.size() + 3), from = c.rng.below(t.size() + 1);
                if(far) { n += wrap; VF_EV("copy of more than the size type counts"); }
                size_t w = n < t.size() - from ? n : t.size() - from;
                c.op("copy(%zu,%zu)", n, from);
                Raw<char> out(w); VF_EQ((size_t)s.copy(out.data(), n, from), w, "copy count");
                VF_REQ(memcmp(out.data(), t.data() + from, w) == 0, "copy content"); }
        }
        VF_EV("query");
    }
    size_t i = 0;
    for(auto it = s.begin(); it != s.end(); ++it, ++i) VF_REQ(i < t.size() && (char)*it == t[i], "iteration at %zu", i);
    VF_EQ(i, t.size(), "iterated");
    std::ostringstream os; os << s;
    VF_REQ(os.str() == t || nul_ok, "printed %s", show(os.str()).c_str());
}

template <size_t Max> void views(Ctx& c)
{
    std::string t = text(c, Max, true); c.op("view of %s", brief(t).c_str()); c.mark(hash_bytes(t.data(), t.size()));
    Bytes b(t); estd::string_view v(b.p(), t.size());
    queries(c, v, t, true);
    // narrowing the view
    sv r(t);
    for(int i = 0; i < 6; ++i)
    {
        size_t n = c.rng.below(r.size() + 1);
        if(c.rng.coin()) n = n > 3 ? 3 : n;
        switch(c.rng.below(3))
        {
            case 0: c.op("remove_prefix %zu", n); v.remove_prefix(n); r.remove_prefix(n); break;
            case 1: c.op("remove_suffix %zu", n); v.remove_suffix(n); r.remove_suffix(n); break;
            default: { size_t k = c.rng.chance(1, 4) ? sv::npos : c.rng.below(r.size() + 2); c.op("substr(%zu,%zd)", n, (ssize_t)k);
                estd::string_view v2 = k == sv::npos ? (n == 0 && c.rng.coin() ? v.substr() : v.substr(n)) : v.substr(n, k);
                sv r2 = r.substr(n, k);
                VF_EQ((size_t)v2.size(), r2.size(), "substr size");
                VF_REQ(v2.data() == b.p() + (r2.data() - t.data()), "substr start");
                VF_EV("substr");
                if(c.rng.coin()) { v = v2; r = r2; } }
        }
        VF_EQ((size_t)v.size(), r.size(), "size after narrowing");
        VF_REQ(v.data() == b.p() + (r.data() - t.data()), "start after narrowing");
        VF_EQ((bool)v.empty(), r.empty(), "empty after narrowing");
    }
    if(r.size()) queries(c, v, std::string(r), true);
    c.state(hash_bytes(r.data(), r.size()));
}
VF_REG("view", 120, views<60>); VF_REG("view long", 6, views<900>); VF_REG("view very long", 1, views<70000>);
template <size_t N, bool NT> void inl(Ctx& c)
{
    std::string t = text(c, N - NT, !NT); c.op("layer1<%zu,%d> %s", N, NT, brief(t).c_str()); c.mark(hash_bytes(t.data(), t.size()));
    Bytes b(t); Boxed<estd::layer1::string<N, NT>> s; s->append(b.p(), t.size());
    queries(c, *s, t, !NT);
    estd::string_view v = *s;
    VF_REQ(v.data() == s->data() && v.size() == t.size(), "view of inline string");
    c.state(hash_bytes(t.data(), t.size()));
}
VF_REG("layer1", 60, inl<32, true>);
VF_REG("layer1 full size byte", 40, inl<250, false>);
VF_REG("layer1,counted", 50, inl<16, false>);
VF_REG("layer1 long", 4, inl<700, true>); VF_REG("layer1 long counted", 4, inl<300, false>); VF_REG("layer1 very long", 1, inl<70000, true>); VF_REG("layer1 very long counted", 1, inl<70001, false>);
template <size_t Max> void const2(Ctx& c)
{
    std::string t = text(c, Max, false); c.op("layer2 const %s", brief(t).c_str()); c.mark(hash_bytes(t.data(), t.size()));
    CStr b(t); estd::layer2::const_string s(b.p());
    queries(c, s, t, false);
    c.state(hash_bytes(t.data(), t.size()));
}
template <size_t Max> void const3(Ctx& c)
{
    std::string t = text(c, Max, true); c.op("layer3 const %s", brief(t).c_str()); c.mark(hash_bytes(t.data(), t.size()));
    Bytes b(t); estd::layer3::const_string s(b.p(), t.size());
    queries(c, s, t, true);
    c.state(hash_bytes(t.data(), t.size()));
}
template <size_t Max> void wrap3(Ctx& c)
{
    std::string t = text(c, Max, false); c.op("layer3 %s", brief(t).c_str()); c.mark(hash_bytes(t.data(), t.size()));
    CStr b(t); estd::layer3::basic_string<char> s(b.r.data(), t.size(), (unsigned short)(t.size() + 1));
    queries(c, s, t, false);
    c.state(hash_bytes(t.data(), t.size()));
}
VF_REG("const2", 60, const2<40>); VF_REG("const3", 60, const3<40>); VF_REG("wrap3", 40, wrap3<40>);
VF_REG("const2 long", 4, const2<1000>); VF_REG("const3 long", 4, const3<1000>); VF_REG("wrap3 long", 4, wrap3<1000>); VF_REG("const2 very long", 1, const2<65000>);
}
