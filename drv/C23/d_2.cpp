#include "d_units.h"
using namespace un; using estd::ratio;
// units whose stored value is offset from the quantity they denote
template <class R, class Int, Int k, class P = ratio<1>> using minus = temp<R, P, eu::subtractor<Int, k>>;
template <class R, class Int, Int k, class P = ratio<1>> using plus = temp<R, P, eu::adder<Int, k>>;

template <class U> int64_t offset_of() { return (int64_t)typename ut<U>::proj{}(0); }

template <class U1, class U2> void offset_convert(Ctx& c)
{
    typedef typename ut<U1>::rep R1; typedef typename ut<U2>::rep R2; typedef typename ut<U1>::period P1; typedef typename ut<U2>::period P2;
    int64_t o1 = offset_of<U1>(), o2 = offset_of<U2>();
    for(int i = 0; i < 12; i++)
    {
        R1 raw = (R1)(c.rng.chance(1, 4) ? c.rng.below(256) : (uint64_t)c.rng.below(120));
        U1 a(raw);
        int64_t quantity = (int64_t)raw + o1;
        CHK(a.root_count(), raw, "stored value"); CHK(a.count(), quantity, "count()");
        wide conv;
        if(!convertible<P1, P2, int32_t>(quantity, conv)) continue;
        if(!fits<R2>(conv - o2)) continue;
        c.op("raw %lld denotes %lld * %s -> %s * %s", (long long)raw, (long long)quantity, ps<P1>().c_str(), ws(conv).c_str(), ps<P2>().c_str()); c.nt(); c.mark((uint64_t)quantity);
        U2 b(a); CHK(b.count(), conv, "quantity after converting construction"); CHK(b.root_count(), conv - o2, "stored value after conversion");
        U2 d(R2(0)); d = a; CHK(d.count(), conv, "quantity after converting assignment");
        VF_EV("offset conversions"); if(o1 && o2) VF_EV("conversions between two offsets");
        U1 a2(a); CHKB(a == a2, true, "copy of an offset unit"); CHK(a2.count(), quantity, "copy of an offset unit");
    }
}
typedef temp<int32_t> c32; typedef temp<int16_t, ratio<1, 10>> d16; typedef temp<int32_t, ratio<1, 10>> d32;
typedef minus<uint8_t, int16_t, 40> m8; typedef minus<int32_t, int32_t, 40> m32; typedef minus<uint16_t, int32_t, 273, ratio<1, 10>> k16; typedef plus<int16_t, int32_t, 100> p16; typedef plus<int32_t, int32_t, 7> p32; typedef minus<int16_t, int16_t, 40> m16;
#define OC(n, A, B) VF_REG("offset " n, 60, offset_convert<A, B>);
OC("m8-c32", m8, c32) OC("m8-d16", m8, d16) OC("d16-m8", d16, m8) OC("d32-m8", d32, m8) OC("k16-c32", k16, c32) OC("c32-k16", c32, k16) OC("d32-p16", d32, p16) OC("m8-k16", m8, k16) OC("k16-m8", k16, m8)
OC("c32-m32", c32, m32) OC("m32-c32", m32, c32) OC("m16-m32", m16, m32) OC("m32-p32", m32, p32) OC("p32-m32", p32, m32)

// same scale comparisons of offset units
template <class U> void offset_compare(Ctx& c)
{
    typedef typename ut<U>::rep R;
    R x = (R)c.rng.below(256), y = (R)(c.rng.coin() ? x : (R)c.rng.below(256)); U a(x), b(y); int64_t o = offset_of<U>();
    c.op("%lld vs %lld", (long long)x, (long long)y); c.nt(); c.mark((uint64_t)x * 256 + (uint64_t)y);
    CHKB(a == b, x == y, "a == b"); 
    int k = (int)c.rng.range(0, 200);
    CHKB(a == k, (int64_t)x + o == k, "a == number"); CHKB(a < k, (int64_t)x + o < k, "a < number"); CHKB(a > k, (int64_t)x + o > k, "a > number");
    U t(a); ++t; if(x != std::numeric_limits<R>::max()) { CHK(t.count(), (int64_t)x + o + 1, "++a"); }
    VF_EV("offset comparisons");
}
VF_REG("offset compare m8", 60, offset_compare<m8>); VF_REG("offset compare p16", 60, offset_compare<p16>); VF_REG("offset compare m32", 60, offset_compare<m32>);
