#include "d_loc.h"
// ---- classification: every character, every function, every mask
template <unsigned B> void base_chars(Ctx& c)
{
    typedef estd::cbase<char, B, classic> cb; cb f;
    for(int i = 0; i < 256; ++i)
    {
        char ch = (char)i;
        int d = i >= '0' && i <= '9' ? i - '0' : i < 128 && ::isalpha(i) ? ::tolower(i) - 'a' + 10 : 99;
        bool in = d < (int)B;
        c.op("base %u char %d", B, i);
        VF_EQ((bool)f.is_in_base(ch), in, "cbase::is_in_base");
        auto o = f.from_char(ch);
        VF_EQ((bool)o.has_value(), in, "cbase::from_char has a value");
        if(in) { VF_EQ((int)o.value(), d, "cbase::from_char value"); VF_EQ((int)f.from_char_raw(ch), d, "cbase::from_char_raw"); }
        unsigned rb = B <= 10 ? 2 + c.rng.below(B - 1) : 11 + c.rng.below(B - 10);       // narrower base at run time
        bool rin = d < (int)rb;
        VF_EQ((bool)f.is_in_base(ch, rb), rin, "cbase::is_in_base with a base");
        auto ro = f.from_char(ch, rb); VF_EQ((bool)ro.has_value(), rin, "cbase::from_char with a base");
        if(rin) VF_EQ((int)ro.value(), d, "cbase::from_char value with a base");
    }
    for(unsigned d = 0; d < B; ++d) VF_EQ((int)f.to_char((int16_t)d), (int)"0123456789abcdefghijklmnopqrstuvwxyz"[d], "cbase::to_char");
    VF_EV("cbase characters"); c.nt();
}
VF_REG("cbase 2", 10, base_chars<2>); VF_REG("cbase 8", 10, base_chars<8>); VF_REG("cbase 10", 10, base_chars<10>); VF_REG("cbase 11", 10, base_chars<11>); VF_REG("cbase 16", 10, base_chars<16>); VF_REG("cbase 36", 10, base_chars<36>);

template <class L> void facet(Ctx& c, L l)
{
    typedef estd::ctype_base cb;
    auto f = estd::use_facet<estd::ctype<char>>(l);
    struct { cb::mask m; int (*fn)(int); const char* n; } t[] = { {cb::space, ::isspace, "space"}, {cb::digit, ::isdigit, "digit"}, {cb::alpha, ::isalpha, "alpha"}, {cb::punct, ::ispunct, "punct"}, {cb::upper, ::isupper, "upper"}, {cb::lower, ::islower, "lower"}, {cb::xdigit, ::isxdigit, "xdigit"}, {cb::alnum, ::isalnum, "alnum"}, {cb::graph, ::isgraph, "graph"} };
    cb::mask m = (cb::mask)c.rng.below(128);
    if(c.rng.coin()) m = t[c.rng.below(9)].m;
    c.op("mask %02x", m);
    for(int i = 0; i < 256; ++i)
    {
        char ch = (char)i; bool want = false;
        for(int k = 0; k < 7; ++k) if((m & t[k].m) && i < 128 && t[k].fn(i)) want = true;
        VF_REQ(f.is(m, ch) == want, "ctype::is(%02x, char %d) is %d, expected %d", m, i, f.is(m, ch), want);
        for(int k = 0; k < 9; ++k) { bool w = i < 128 && t[k].fn(i); VF_REQ(f.is(t[k].m, ch) == w, "ctype::is(%s, char %d) is not %d", t[k].n, i, w); }
        bool sp = i < 128 && ::isspace(i);
        VF_EQ((bool)f.isspace(ch), sp, "ctype::isspace"); VF_EQ((bool)f.isupper(ch), i < 128 && ::isupper(i), "ctype::isupper"); VF_EQ((bool)f.islower(ch), i < 128 && ::islower(i), "ctype::islower");
        VF_EQ((bool)estd::isspace(ch, l), sp, "isspace(ch, locale)");
        VF_EQ(f.widen(ch), ch, "widen");
    }
    VF_EV("ctype characters"); c.nt();
}
VF_GROUP_W(ctype_facet, 30)
{
    switch(c.rng.below(4))
    {
        case 0: facet(c, classic()); break;
        case 1: facet(c, estd::locale::type<estd::locale::iso::en_US, estd::locale::encodings::UTF8>()); break;
        case 2: facet(c, estd::locale::type<estd::locale::iso::en_GB, estd::locale::encodings::ASCII>()); break;
        default: facet(c, estd::locale::type<estd::locale::iso::en_US, estd::locale::encodings::ASCII>());
    }
}
VF_GROUP_W(cctype, 10)
{
    for(int i = -1; i < 256; ++i)
    {
        int k = i; bool a = i >= 0 && i < 128;
        c.op("character %d", i);
        VF_EQ(!!estd::isspace(k), a && ::isspace(k), "isspace"); VF_EQ(!!estd::isdigit(k), a && ::isdigit(k), "isdigit");
        VF_EQ(!!estd::isupper(k), a && ::isupper(k), "isupper"); VF_EQ(!!estd::islower(k), a && ::islower(k), "islower"); VF_EQ(!!estd::isalpha(k), a && ::isalpha(k), "isalpha");
    }
    VF_EV("cctype characters"); c.nt();
}
template <class L> void punct(Ctx& c, L l, const char* t, const char* f)
{
    auto p = estd::use_facet<estd::numpunct<char>>(l);
    VF_REQ(p.truename() == t && p.falsename() == f, "boolean names");
    VF_EQ(p.decimal_point(), '.', "decimal point");
}
VF_GROUP_W(names, 4)
{
    typedef estd::locale::iso iso; typedef estd::locale::encodings enc;
    punct(c, classic(), "true", "false"); punct(c, estd::locale::type<iso::en_GB, enc::UTF8>(), "true", "false"); punct(c, estd::locale::type<iso::fr_FR, enc::UTF8>(), "vrai", "faux"); punct(c, estd::locale::type<iso::fr_FR, enc::ASCII>(), "vrai", "faux");
    VF_REQ(std::string(classic().name()) == "C" && std::string(estd::locale::type<iso::en_US, enc::UTF8>().name()) == "en_US.UTF-8" && std::string(estd::locale::type<iso::en_US, enc::ASCII>().name()) == "en_US", "locale names");
    VF_EV("names"); c.nt();
}

// ---- choosing among names by their characters
VF_GROUP_W(chooser, 60)
{
    static const char alpha[] = "abcde";
    std::string names[3]; size_t first = c.rng.below(5);
    for(int i = 0; i < 3; ++i)
    {
        names[i] = alpha[(first + i) % 5];
        size_t n = c.rng.chance(1, 5) ? 0 : c.rng.below(6);
        for(size_t k = 0; k < n; ++k) names[i] += alpha[c.rng.below(5)];
    }
    if(c.rng.chance(1, 10)) names[c.rng.below(3)] = "";
    const char* z[3] = { names[0].c_str(), names[1].c_str(), names[2].c_str() };
    for(int round = 0; round < 8; ++round)
    {
        std::string in = c.rng.coin() ? names[c.rng.below(3)] : "";
        if(in.size() && c.rng.chance(1, 3)) in.resize(c.rng.below(in.size() + 1));
        if(in.size() && c.rng.chance(1, 3)) in[c.rng.below(in.size())] = alpha[c.rng.below(5)];
        size_t n = c.rng.below(5); for(size_t k = 0; k < n; ++k) in += c.rng.chance(1, 6) ? (char)c.rng.below(256) : alpha[c.rng.below(5)];
        int want = -1;
        for(int i = 0; i < 3; ++i) if(names[i].size() && in.compare(0, names[i].size(), names[i]) == 0) want = i;
        c.op("choose %s among %s %s %s", show(in).c_str(), z[0], z[1], z[2]);
        Raw<char> b(in.size()); memcpy(b.data(), in.data(), in.size());
        estd::internal::chooser ch;
        const char* e = ch.choose(names, (const char*)b.data(), (const char*)b.data() + b.n, c.rng.coin());
        VF_EQ(ch.chosen(), want, "chooser::choose (strings)");
        if(want >= 0) VF_EQ((size_t)(e - b.data()), names[want].size(), "characters consumed");
        VF_REQ(e >= b.data() && e <= b.data() + b.n, "iterator left the input");
        const char* it = b.data();
        VF_EQ(estd::internal::chooser::choose(z, it, (const char*)b.data() + b.n), want, "chooser::choose (C strings)");
        // one character at a time; done must come no later than the end of the longest name
        ch.reset();
        bool done = false; size_t k = 0;
        for(; k < in.size() && !done; ++k) done = ch.process(z, in[k]);
        if(want >= 0) { VF_REQ(done && k == names[want].size() && ch.chosen() == want, "one at a time: chose %d after %zu", ch.chosen(), k); VF_EV("chosen"); }
        else if(done) { VF_EQ(ch.chosen(), -1, "one at a time chose"); VF_EV("none chosen"); }
        c.nt();
    }
}
