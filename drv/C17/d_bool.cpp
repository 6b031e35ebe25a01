#include "d_num.h"
using namespace ng;
struct klingon : classic { typedef classic base; };
namespace estd { template <> struct numpunct<char, klingon> : numpunct<char, classic> { static layer2::const_string truename() { return "teH"; } static layer2::const_string falsename() { return "ngeb"; } };
}
template <class F> void fp(Ctx& c, F tol)
{
    for(int i = 0; i < 10; ++i)
    {
        std::string s; if(c.rng.chance(1, 3)) s += '-';
        size_t a = c.rng.below(7), b = c.rng.below(10);
        // as many digits as the type's range allows
        if(c.rng.chance(1, 4)) { const size_t most = sizeof(F) == 4 ? 30 : 120; (c.rng.chance(1, 4) ? a : b) = 8 + c.rng.below(most - 8); VF_EV("many digits"); }
        if(a + b == 0) a = 1;
        for(size_t k = 0; k < a; ++k) s += '0' + c.rng.below(10);
        bool dot = b || c.rng.chance(1, 4);
        if(dot) { s += '.'; for(size_t k = 0; k < b; ++k) s += '0' + c.rng.below(10); }
        size_t used = s.size(); double want = strtod(s.c_str(), nullptr);
        if(c.rng.coin()) { s += dot && c.rng.coin() ? '.' : " ,;x-+/:"[c.rng.below(8)]; if(c.rng.coin()) s += "12"; }
        Raw<char> r(s.size()); memcpy(r.data(), s.data(), s.size());
        const char* f = r.data(), *l = f + r.n;
        c.op("floating num_get %s", s.c_str());
        estd::detail::basic_istream<estd::layer1::stringbuf<32>> fmt;
        estd::num_get<char, const char*> n; iostate err = goodb; F v = 77;
        const char* e = n.get(f, l, fmt, err, v);
        VF_REQ(std::fabs((double)v - want) <= tol * (1 + (a + b) / 5.0) * (1 + std::fabs(want)), "floating num_get of %s: %.9g, expected %.9g", s.c_str(), (double)v, want);
        VF_EQ((size_t)(e - f), used, "floating num_get position"); VF_EQ((int)err, (int)(used == s.size() ? eofb : goodb), "floating num_get state");
        VF_EV("floating"); c.nt();
    }
}
VF_REG("float", 30, [](Ctx& c) { fp<float>(c, 2e-6f); }); VF_REG("double", 30, [](Ctx& c) { fp<double>(c, 1e-13); });

std::string mangled(Ctx& c, const std::string& t, const std::string& f)
{
    std::string in = c.rng.coin() ? t : f;
    unsigned m = c.rng.below(7);
    if(m == 0) in.resize(c.rng.below(in.size() + 1));
    if(m == 1) in[c.rng.below(in.size())] ^= c.rng.pick({1, 2, 32});
    if(m == 2) in.insert(in.begin() + c.rng.below(in.size() + 1), (char)c.rng.below(256));
    if(m == 3) in.erase(in.begin() + c.rng.below(in.size()));
    if(m == 4) { in.clear(); size_t n = c.rng.below(8); while(n--) in += "truefalsx"[c.rng.below(9)]; }
    if(c.rng.coin()) in += " 1"; else if(c.rng.chance(1, 4)) in += "e";
    return in;
}
// boolean names as the standard facet: longest common prefix decides; state and position included
struct BE { bool v; iostate err; size_t used; };
BE bool_expect(const std::string& in, const std::string& t, const std::string& f)
{
    for(int k = 0; k < 2; ++k)
    {
        const std::string& n = k ? f : t;
        if(in.size() && in[0] == n[0])
        {
            size_t i = 0; while(i < in.size() && i < n.size() && in[i] == n[i]) ++i;
            if(i == n.size()) return { !k, goodb, i };
            return { false, (iostate)(failb | (i == in.size() ? eofb : goodb)), i };
        }
    }
    return { false, (iostate)(failb | (in.empty() ? eofb : goodb)), 0 };
}
VF_GROUP_W(bool_names, 60)
{
    for(int i = 0; i < 10; ++i)
    {
        std::string in = mangled(c, "true", "false");
        Raw<char> b(in.size()); memcpy(b.data(), in.data(), in.size());
        const char* f = b.data(), *l = f + b.n;
        c.op("bool %s", show(in).c_str());
        BE e = bool_expect(in, "true", "false");
        estd::detail::basic_istream<estd::layer1::stringbuf<32>> fmt; fmt.setf(estd::ios_base::boolalpha);
        estd::num_get<char, const char*> n; iostate err = goodb; bool v = c.rng.coin();
        const char* r = n.get(f, l, fmt, err, v);
        VF_REQ(v == e.v && err == e.err && (size_t)(r - f) == e.used, "bool from %s: %d state %d at %zd, expected %d state %d at %zu", show(in).c_str(), v, (int)err, r - f, e.v, (int)e.err, e.used);
        // char by char with another locale's names
        std::string kin = mangled(c, "teH", "ngeb"); BE ke = bool_expect(kin, "teH", "ngeb");
        c.op("klingon %s", show(kin).c_str());
        estd::iterated::bool_get<char, klingon, true> kb; err = goodb; v = !ke.v; size_t k = 0; bool done = false;
        for(; k < kin.size() && !done; ++k) done = kb.get(kin[k], err, v);
        if(done) { VF_REQ(v == ke.v && (err & failb) == (ke.err & failb), "klingon bool from %s: %d state %d", show(kin).c_str(), v, (int)err); VF_EQ(k, ke.used + (ke.err & failb ? 1 : 0), "klingon characters looked at"); }
        else VF_REQ(ke.err & eofb, "klingon bool from %s not done", show(kin).c_str());
        VF_EV(e.err == goodb ? "bool name" : e.err & eofb ? "bool cut short" : "bool mismatch");
        c.nt();
    }
}
VF_GROUP_W(bool_digit, 20)
{
    std::string in; size_t n = c.rng.below(3); while(n--) in += c.rng.coin() ? '0' + c.rng.below(3) : (char)c.rng.below(256);
    Raw<char> b(in.size()); memcpy(b.data(), in.data(), in.size());
    const char* f = b.data(), *l = f + b.n;
    c.op("bool %s", show(in).c_str());
    estd::detail::basic_istream<estd::layer1::stringbuf<32>> fmt;
    estd::num_get<char, const char*> g; iostate err = goodb; bool v = c.rng.coin();
    const char* r = g.get(f, l, fmt, err, v);
    if(in.empty()) VF_REQ(err == (failb | eofb) && !v && r == f, "bool from nothing: %d state %d", v, (int)err);
    else if(in[0] == '0' || in[0] == '1') VF_REQ(err == goodb && v == (in[0] == '1') && r == f + 1, "bool from %s: %d state %d at %zd", show(in).c_str(), v, (int)err, r - f);
    else VF_REQ(err == failb && r == f, "bool from %s: %d state %d at %zd", show(in).c_str(), v, (int)err, r - f);
    VF_EV("bool digit"); c.nt();
}
