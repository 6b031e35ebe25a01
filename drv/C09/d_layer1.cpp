#include "d_optional.h"
namespace estd { namespace internal {
template <> struct optional_base<opt::Packed> : layer1::optional_base<opt::Packed, 4> { typedef layer1::optional_base<opt::Packed, 4> base_type; ESTD_CPP_FORWARDING_CTOR(optional_base) };
}}
using namespace opt;
typedef estd::layer1::optional<int, -1> L1m; typedef estd::layer1::optional<int> L1z; typedef estd::layer1::optional<short, 0x1000> L1s; typedef estd::layer1::optional<uint16_t, 0xFFFF> L1u; typedef estd::layer1::optional<signed char, -128> L1c;
typedef estd::layer1::optional<Plain, P3> L1e; typedef estd::layer1::optional<bool> L1b; typedef estd::optional<int, estd::internal::layer1::optional_base<int, 10, 0>> B10; typedef estd::optional<Packed> BP;
constexpr unsigned L = ORDERED | REFS;
OPT("layer1<int,-1>", L1m, int, -1, -3, 3, L | HASHED | EMPLACE, 60);
OPT("layer1<int,0>", L1z, int, 0, -3, 3, L | HASHED, 40);
OPT("layer1<short,0x1000>", L1s, short, 0x1000, 0xFFC, 0x1003, L, 40);
OPT("layer1<uint16,0xFFFF>", L1u, uint16_t, 0xFFFF, 0xFFF0, 0xFFFF, L | HASHED, 40);
OPT("layer1<schar,-128>", L1c, signed char, -128, -128, -120, L, 30);
OPT("layer1<enum,P3>", L1e, Plain, P3, 0, 7, L, 40);
OPT("layer1<bool>", L1b, bool, NONE, 0, 1, ORDERED, 60);
OPT("bitwise<int:10>", B10, int, NONE, -512, 511, ORDERED, 40);
OPT("bitwise<Packed:4>", BP, Packed, NONE, 0, 7, ORDERED, 40);
VF_GROUP_W(conversions, 80)
{
    int v = (int)c.rng.range(-3, 3); bool e = c.rng.coin(); c.op("converting %d %d", e, v); c.mark(v * 2 + e);
    // source flavours
    Boxed<estd::optional<short>> s; Boxed<estd::optional<int>> i; Boxed<L1m> m; if(e) { *s = (short)v; *i = v; *m = v; }
    bool me = e && v != -1;
    auto plain = [&](const auto& o, bool en, const char* what) { VF_EQ(o.has_value(), en, what); if(en) VF_EQ((int)*o, v, what); VF_EV("converted"); if(!en) VF_EV("converted disengaged"); };
    { Boxed<estd::optional<int>> t((const estd::optional<short>&)*s); plain(*t, e, "optional<int>(optional<short>)"); }
    { Boxed<estd::optional<long long>> t(*i); plain(*t, e, "optional<long long>(optional<int>)"); }
    { Boxed<estd::optional<int>> t((const L1m&)*m); plain(*t, me, "optional<int>(layer1)"); }
    { Boxed<estd::optional<int>> t{L1m(*m)}; plain(*t, me, "optional<int>(layer1&&)"); }
    { Boxed<L1m> t((const estd::optional<int>&)*i); plain(*t, me, "layer1(optional<int>)"); }
    { Boxed<L1m> t{estd::optional<int>(*i)}; plain(*t, me, "layer1(optional<int>&&)"); }
    { Boxed<L1z> t((const L1m&)*m); plain(*t, me && v != 0, "layer1<0>(layer1<-1>)"); }
    int w = (int)c.rng.range(-9, 9); bool pre = c.rng.coin();
    { Boxed<estd::optional<int>> t; if(pre) *t = w; *t = *s; plain(*t, e, "optional<int> = optional<short>"); }
    { Boxed<estd::optional<int>> t; if(pre) *t = w; *t = *m; plain(*t, me, "optional<int> = layer1"); }
    { Boxed<L1m> t; if(pre) *t = w; *t = *i; plain(*t, me, "layer1 = optional<int>"); }
    { Boxed<L1m> t; if(pre) *t = w; *t = estd::optional<int>(*i); plain(*t, me, "layer1 = optional<int>&&"); }
    { Boxed<estd::optional<double>> t; if(pre) *t = 2.5; *t = *i; plain(*t, e, "optional<double> = optional<int>"); }
    VF_EQ((bool)(*i == *m), e == me, "mixed ==");
    VF_EQ((bool)(*i == *s), true, "mixed =="); VF_EQ((bool)(*i != *s), false, "mixed !=");
    c.nt();
}
VF_GROUP_W(array, 40)
{   // neighbours are not disturbed
    struct S { char a; estd::optional<Tracked> o; char b; estd::optional<double> d; char e; L1b f; char g; }; Ledger::reset();
    {
        Boxed<S> s; s->a = 1; s->b = 2; s->e = 3; s->g = 4; bool en = false, dn = false, fn = false; int v = 0, fv = 0;
        for(unsigned k = 0; k < 12; ++k)
        {
            switch(c.rng.below(6)) { case 0: v = (int)c.rng.range(1, 99); c.op("o=%d", v); s->o = Tracked(v); en = true; break; case 1: s->o.reset(); en = false; break; case 2: s->d = 1.5; dn = true; break; case 3: s->d.reset(); dn = false; break; case 4: fv = c.rng.coin(); s->f = (bool)fv; fn = true; break; default: s->f.reset(); fn = false; }
            VF_REQ(s->a == 1 && s->b == 2 && s->e == 3 && s->g == 4, "neighbour overwritten");
            VF_EQ(s->o.has_value(), en, "o"); VF_EQ(s->d.has_value(), dn, "d"); VF_EQ(s->f.has_value(), fn, "f"); if(en) VF_EQ((*s->o).get(), v, "o"); if(dn) VF_REQ(*s->d == 1.5, "d"); if(fn) VF_EQ((bool)*s->f, fv, "f");
            VF_LEDGER(en); c.mark(v + en * 7 + dn * 3 + fn);
        }
        VF_EV("neighbours"); c.nt();
    }
    VF_LEDGER(0);
}
