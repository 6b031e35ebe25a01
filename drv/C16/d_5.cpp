#include "d_chars.h"
#include <estd/string.h>
#include <cerrno>
using namespace cc;
namespace {
std::string numtext(Ctx& c, int base)
{
    static const char dg[] = "0123456789abcdefghijklmnopqrstuvwxyz"; std::string s;
    for(int k = c.rng.chance(1, 4) ? (int)c.rng.below(3) : 0; k > 0; --k) s += c.rng.pick({' ', '\t', '\n'});
    if(c.rng.chance(1, 3)) s += c.rng.pick({'-', '+'});
    if((base == 16 || base == 0) && c.rng.chance(1, 3)) s += c.rng.coin() ? "0x" : "0X";
    else if(base == 0 && c.rng.coin()) s += "0";
    const int b = base ? base : 10;
    if(c.rng.chance(1, 4)) { unsigned long v = c.rng.coin() ? (unsigned long)LONG_MAX : ULONG_MAX; v += (unsigned long)c.rng.below(5); if(c.rng.chance(1, 3)) v /= 1 + c.rng.below(9); std::string r; do { r += dg[v % (unsigned)b]; v /= (unsigned)b; } while(v); s.append(r.rbegin(), r.rend()); }
    else for(size_t n = c.rng.chance(1, 8) ? 0 : c.rng.chance(1, 6) ? 10 + c.rng.below(30) : 1 + c.rng.below(8); n > 0; --n) { char ch = dg[c.rng.below((uint64_t)b)]; if(ch >= 'a' && c.rng.coin()) ch -= 32; s += ch; }
    if(c.rng.coin()) for(size_t n = 1 + c.rng.below(4); n > 0; --n) s += c.rng.pick({' ', 'x', '7', '-', 'g', 'Z', '.', '\x80'});
    return s;
}
template <class S> void whole(Ctx& c, const S& s, const std::string& t, int base)
{
    char* e = nullptr; size_t p, want; errno = 0;
    const long w = strtol(t.c_str(), &e, base); want = (size_t)(e - t.c_str()); const bool over = errno == ERANGE;
    p = (size_t)-2; VF_EQ(estd::stol(s, &p, base), w, "stol"); VF_EQ(p, want, "stol position"); VF_EQ(estd::stol(s, nullptr, base), w, "stol without a position");
    const unsigned long u = strtoul(t.c_str(), &e, base); want = (size_t)(e - t.c_str());
    p = (size_t)-2; VF_EQ(estd::stoul(s, &p, base), u, "stoul"); VF_EQ(p, want, "stoul position"); VF_EQ(estd::stoul(s, nullptr, base), u, "stoul without a position");
    if(w >= INT_MIN && w <= INT_MAX) { p = (size_t)-2; VF_EQ((long)estd::stoi(s, &p, base), w, "stoi"); strtol(t.c_str(), &e, base); VF_EQ(p, (size_t)(e - t.c_str()), "stoi position"); VF_EQ((long)estd::stoi(s, nullptr, base), w, "stoi without a position"); VF_EV("stoi"); }
    if(base == 10) { VF_EQ(estd::stol(s), w, "stol in base 10"); VF_EQ(estd::stoul(s), u, "stoul in base 10"); p = 9999; estd::stol(s, &p); strtol(t.c_str(), &e, 10); VF_EQ(p, (size_t)(e - t.c_str()), "stol position in base 10"); }
    VF_EV(over ? "sto out of range" : want == 0 ? "sto nothing" : want == t.size() ? "sto whole" : "sto partial"); VF_EQ(s.size(), t.size(), "size after converting"); c.nt();
}
}
VF_GROUP_W(sto, 60)
{
    estd::layer1::string<32> reused; reused = "99999999999999";
    for(int i = 0; i < 8; ++i)
    {
        const int base = c.rng.coin() ? 10 : c.rng.pick({0, 2, 8, 10, 16, 16, 36, 3, 20}); std::string t = numtext(c, base); c.op("sto %s base %d", show(t).c_str(), base);
        { estd::layer1::string<96> s; s = t.c_str(); whole(c, s, t, base); }
        if(t.size() < 32) { reused = t.c_str(); whole(c, reused, t, base); VF_EV("shorter text over longer"); }
        { Raw<char> r(t.size() + 1); memcpy(r.data(), t.c_str(), t.size() + 1); estd::layer2::string<> s(r.data()); whole(c, s, t, base); }
    }
}
