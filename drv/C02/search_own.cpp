// the same monitors over the library's own character traits (docs/Platform.md, FEATURE_ESTD_CHARTRAITS)
#define FEATURE_ESTD_CHARTRAITS 1
#define VF_NARROW
#define VF_PREFIX "own traits/"
#include "search.cpp"
VF_GROUP_W(own_traits, 40)
{
    typedef estd::char_traits<char> tr; typedef std::char_traits<char> ref;
    std::string s, t; size_t n = c.rng.chance(1, 6) ? 250 + c.rng.below(400) : c.rng.below(12);
    while(n--) s += (char)(c.rng.coin() ? 1 + c.rng.below(3) : 1 + c.rng.below(255));
    t = s; if(t.size() && c.rng.chance(3, 4)) t[c.rng.below(t.size())] = (char)(1 + c.rng.below(255));
    Bytes b(s), u(t); Bytes z(s + std::string(1, (char)0)); auto sign = [](int v) { return (v > 0) - (v < 0); };
    VF_EQ(tr::length(z.p()), s.size(), "length");
    size_t k = c.rng.below(s.size() + 1); VF_EQ(sign(tr::compare(b.p(), u.p(), k)), sign(ref::compare(s.data(), t.data(), k)), "compare");
    char ch = k < s.size() && c.rng.coin() ? s[c.rng.below(s.size())] : (char)c.rng.below(256);
    const char* f = tr::find(b.p(), k, ch); const char* w = ref::find(s.data(), k, ch);
    VF_REQ(f ? w && f - b.p() == w - s.data() : !w, "find of %02x in %zu at %ld, expected %ld", (unsigned char)ch, k, f ? (long)(f - b.p()) : -1, w ? (long)(w - s.data()) : -1);
    auto i = tr::to_int_type(ch); VF_REQ(i == (unsigned char)ch && !tr::eq_int_type(i, tr::eof()) && tr::to_char_type(i) == ch && tr::eq_int_type(i, i), "character %02x becomes %d", (unsigned char)ch, (int)i);
    VF_REQ(tr::not_eof(i) == i && !tr::eq_int_type(tr::not_eof(tr::eof()), tr::eof()), "not_eof(%d) is %d, not_eof(eof) is %d", (int)i, (int)tr::not_eof(i), (int)tr::not_eof(tr::eof()));
    VF_REQ(tr::eq(ch, ch) && !tr::eq(ch, (char)(ch ^ 1)), "eq of %02x", (unsigned char)ch);
    VF_EV("own character traits"); c.nt(); c.state(s.size());
}
