#include "d_units.h"
using namespace un; using estd::ratio;
#define CONV(n, A, B) VF_REG("convert " n, 60, convert<A, B>);
#define BOTH(n, A, B) CONV(n, A, B) VF_REG("combine " n, 60, combine<A, B>);
typedef eu::bytes<unsigned> b; typedef eu::bytes<int64_t> b64; typedef eu::kilobytes<unsigned> kb; typedef eu::megabytes<unsigned> mb; typedef eu::gigabytes<uint16_t> gb; typedef eu::kilobytes<int64_t> kb64;
typedef eu::percent<int16_t, ratio<100, 1024>> adc; typedef eu::percent<uint16_t, ratio<1, 10>> tenth; typedef eu::percent<uint32_t> pu; typedef eu::percent<int> pi; typedef eu::percent<uint8_t> p8;
BOTH("kb-b", kb, b) BOTH("mb-b", mb, b) BOTH("gb-b64", gb, b64) BOTH("mb-kb64", mb, kb64) BOTH("gb-kb64", gb, kb64)
BOTH("adc-pu", adc, pu) BOTH("tenth-pi", tenth, pi) BOTH("tenth-pu", tenth, pu) BOTH("adc-pi", adc, pi) BOTH("tenth-adc", tenth, adc)
CONV("b-kb", b, kb) CONV("b64-gb", b64, gb) CONV("pi-adc", pi, adc) CONV("pi-tenth", pi, tenth) CONV("tenth-p8", tenth, p8) CONV("b64-mb", b64, mb)
VF_REG("single b", 60, single<b>); VF_REG("single kb64", 60, single<kb64>); VF_REG("single adc", 60, single<adc>); VF_REG("single pi", 60, single<pi>); VF_REG("single p8", 60, single<p8>);

template <class P, class T> void from_percent(Ctx& c)
{
    typedef typename ut<T>::rep R; typedef typename ut<P>::period PP;
    for(int i = 0; i < 12; i++)
    {
        int64_t lo = c.rng.range(-1000, 1000), hi = lo + (int64_t)c.rng.below(20000);
        if(std::is_unsigned<R>::value && lo < 0) lo = 0;
        if(hi < lo) hi = lo;
        wide pc = (wide)c.rng.below((uint64_t)((wide)100 * PP::den / PP::num) + 1);
        if(!fits<typename ut<P>::rep>(pc)) continue;
        if((hi - lo) * pc * PP::num > 2000000000) continue;
        bool zero_based = c.rng.coin(); if(zero_based) { hi -= lo; lo = 0; }
        T t = zero_based ? eu::get_from_percent(P((typename ut<P>::rep)pc), T((R)hi)) : eu::get_from_percent(P((typename ut<P>::rep)pc), T((R)lo), T((R)hi));
        wide want = (wide)(hi - lo) * pc * PP::num / (100 * (wide)PP::den) + lo;
        c.op("%s * %s percent of %lld..%lld", ws(pc).c_str(), ps<PP>().c_str(), (long long)lo, (long long)hi); c.nt(); c.mark((uint64_t)pc * 31 + (uint64_t)hi);
        CHK(t.count(), want, "get_from_percent"); VF_EV("percentages taken");
    }
}
VF_REG("percent pi of h", 60, from_percent<pi, hz<int32_t>>); VF_REG("percent tenth of h64", 60, from_percent<tenth, hz<int64_t>>); VF_REG("percent adc of b64", 60, from_percent<adc, b64>); VF_REG("percent pi of kb64", 60, from_percent<pi, kb64>);

// floating representations
template <class U1, class U2> void fconvert(Ctx& c)
{
    typedef typename ut<U1>::rep R1; typedef typename ut<U2>::rep R2; typedef typename ut<U1>::period P1; typedef typename ut<U2>::period P2;
    long double f = (long double)P1::num * P2::den / ((long double)P1::den * P2::num);
    for(int i = 0; i < 12; i++)
    {
        R1 v = (R1)((double)c.rng.range(std::is_unsigned<R1>::value || std::is_unsigned<R2>::value ? 0 : -30000, 30000) / (std::is_floating_point<R1>::value ? (double)(1u << c.rng.below(10)) : 1.0));
        long double want = v * f;
        if(!std::is_floating_point<R2>::value && (want > lim<R2>::hi() - 1 || want < lim<R2>::lo() + 1)) continue;
        U1 a(v);
        c.op("%f -> %Lf", (double)v, want); c.nt(); c.mark((uint64_t)(int64_t)(want * 1000));
        U2 b2(R2(0)); b2 = a;
        auto ok = [&](R2 g) {
            long double w = want < 0 ? -want : want, gg = g < 0 ? -(long double)g : g, eps = sizeof(R1) == 4 || sizeof(R2) == 4 ? 1e-6L : 1e-14L;
            if(g != 0 && (g < 0) != (want < 0)) return false;
            if(std::is_floating_point<R2>::value) return gg - w <= eps * w && w - gg <= eps * w;
            return gg <= w + eps * w + 1e-12L && gg + 1 > w - eps * w - 1e-12L; };
        VF_REQ(ok(b2.count()), "assignment of %f gave %f, expected %Lf", (double)v, (double)b2.count(), want);
        if constexpr(!std::is_same<P1, P2>::value) { U2 b(a); VF_REQ(ok(b.count()), "conversion of %f gave %f, expected %Lf", (double)v, (double)b.count(), want); }
        VF_EV("floating point conversions");
    }
}
typedef eu::percent<double> pd; typedef eu::percent<float> pf; typedef hz<double, estd::kilo> khd; typedef hz<double> hd; typedef hz<int32_t> h32;
VF_REG("float adc->pd", 40, fconvert<adc, pd>); VF_REG("float pd->adc", 40, fconvert<pd, adc>); VF_REG("float pd->tenth", 40, fconvert<pd, tenth>); VF_REG("float tenth->pd", 40, fconvert<tenth, pd>); VF_REG("float adc->pf", 40, fconvert<adc, pf>);
VF_REG("float hd->khd", 40, fconvert<hd, khd>); VF_REG("float khd->h32", 40, fconvert<khd, h32>); VF_REG("float h32->khd", 40, fconvert<h32, khd>); VF_REG("float khd->hd", 40, fconvert<khd, hd>);  VF_REG("float kb->b", 40, fconvert<eu::kilobytes<double>, eu::bytes<double>>);
VF_REG("float b->kb", 40, fconvert<b, eu::kilobytes<double>>); VF_REG("float pd->pi", 40, fconvert<pd, pi>);

VF_GROUP_W(unit_literals, 10)
{
    using namespace estd::internal::units::literals;
    CHK((50_pct).count(), 50, "50_pct"); CHK((7_bytes).count(), 7, "7_bytes"); VF_REQ((50.5_pct).count() == 50.5, "50.5_pct"); VF_REQ((0.5_bytes).count() == 0.5, "0.5_bytes"); c.nt();
}
