// sizes around the limits of 8 and 16 bit counters
#include "edit_impl.h"
VF_REG("layer1<300>", 20, history<L1<300, true>>);
VF_REG("layer1<600,counted>", 20, history<L1<600, false>>);
VF_REG("layer1<65535>", 2, history<L1<65535, true>>);
VF_REG("layer1<65537,counted>", 2, history<L1<65537, false>>);
VF_REG("layer1<70000>", 2, history<L1<70000, true>>);
VF_REG("layer2<70000>", 2, history<L2<70000, true>>);
VF_REG("layer2<300,counted>", 10, history<L2<300, false>>);
// taking over memory that already holds something
VF_GROUP_W(adopt, 30)
{
    Raw<char> r(16); for(size_t i = 0; i < 16; ++i) r[i] = c.rng.chance(1, 6) ? 0 : (char)(1 + c.rng.below(255)); r[15] = 0; std::string raw(r.data(), 16), text(r.data()); bool init = c.rng.coin(); c.op("layer2(buffer of %zu, %d)", text.size(), init);
    { estd::layer2::basic_string<char, 16, true> s(r.data(), init); std::string want = init ? std::string() : text; VF_REQ(std::string(s.data(), s.size()) == want, "string is \"%s\", expected \"%s\"", std::string(s.data(), s.size()).c_str(), want.c_str()); raw[0] = init ? 0 : raw[0]; VF_REQ(std::string(r.data(), 16) == raw, "the memory changed");
      std::string add = std::string(c.rng.below(16 - want.size()), 'z'); s += add.c_str(); want += add; VF_REQ(std::string(s.data(), s.size()) == want && strlen(r.data()) == want.size(), "string is \"%s\" after appending %zu", std::string(s.data(), s.size()).c_str(), add.size()); }
    Raw<char> q(16); memcpy(q.data(), raw.data(), 16); int n = (int)c.rng.below(16); c.op("layer2(buffer, %d)", n);
    { estd::layer2::basic_string<char, 16, true> s(q.data(), n); std::string w(q.data()); VF_REQ(s.size() == w.size() && w.size() <= (size_t)n && raw.compare(0, w.size(), w) == 0 && q[n] == 0, "size %zu for %d characters", (size_t)s.size(), n); }
    c.nt(); VF_EV("adopted");
}
