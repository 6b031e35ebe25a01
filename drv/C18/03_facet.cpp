// the formatting facet over output iterators
#include "d_os.h"
namespace { struct Ins { std::string* s; Ins& operator*() { return *this; } Ins& operator++() { return *this; } Ins operator++(int) { return *this; } Ins& operator=(char ch) { s->push_back(ch); return *this; } }; }
template <class It, class T> static It put(It it, const ib& s, char f, T v) { return estd::num_put<char, It>::put(it, s, f, v); }
template <class T> static void one(Ctx& c)
{
    Tape<char> t; capstream<char> o(&t); Model m;
    static const ib::fmtflags bs[] = {ib::dec, ib::hex, ib::oct}; static const ib::fmtflags as[] = {ib::left, ib::right, 0};
    m.fl = c.rng.pick(bs) | c.rng.pick(as) | (c.rng.coin() ? ib::uppercase : 0); m.width = c.rng.below(16); m.fill = (char)(33 + c.rng.below(90));
    o.flags(m.fl); o.width(m.width); T v = any_int<T>(c);
    std::string want = m.padded(digits(v, m.base(), m.upper()));
    c.op("num_put %s base %d flags %x", digits(v, 10, false).c_str(), m.base(), m.fl);
    Raw<char> box(want.size()); std::string app; c.nt();
    if(c.rng.coin()) { char* e = put(box.data(), o, m.fill, v); VF_REQ(e == box.data() + want.size() && std::string(box.data(), want.size()) == want, "put \"%s\" (end at %zd), expected \"%s\"", esc(std::string(box.data(), want.size())).c_str(), (ssize_t)(e - box.data()), want.c_str()); VF_EV("facet pointer"); }
    else { put(Ins{&app}, o, m.fill, v); VF_REQ(app == want, "put \"%s\", expected \"%s\"", app.c_str(), want.c_str()); VF_EV("facet inserter"); }
}
VF_GROUP_W(facet_ints, 300)
{
    switch(c.rng.below(9)) { case 0: one<short>(c); break; case 1: one<unsigned short>(c); break; case 2: one<int>(c); break; case 3: one<unsigned>(c); break; case 4: one<long>(c); break;
        case 5: one<unsigned long long>(c); break; case 6: one<signed char>(c); break; case 7: one<unsigned char>(c); break; default: one<long long>(c); }
}
VF_GROUP_W(facet_bool, 100)
{
    Tape<char> t; capstream<char> o(&t); bool alpha = c.rng.coin(), v = c.rng.coin(); if(alpha) o.setf(ib::boolalpha);
    std::string want = alpha ? (v ? "true" : "false") : (v ? "1" : "0"); Raw<char> box(want.size());
    c.op("bool %d alpha %d", v, alpha);
    char* e = put(box.data(), o, ' ', v);
    VF_REQ(e == box.data() + want.size() && std::string(box.data(), want.size()) == want, "bool put as \"%s\"", std::string(box.data(), want.size()).c_str()); VF_EV("facet bool"); c.nt();
}
