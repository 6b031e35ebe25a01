#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
template <> struct estd::chrono::internal::clock_traits<clk> : estd::chrono::internal::unix_epoch_clock_traits {};
typedef duration<int32_t, estd::ratio<1, 15>> f15; typedef duration<uint32_t, estd::milli> u32ms;  typedef duration<int16_t> i16s;
VF_REG("points ms-s", 80, points<milliseconds, seconds>); VF_REG("points s-ns", 80, points<seconds, nanoseconds>); VF_REG("points f15-ms", 80, points<f15, milliseconds>);
VF_REG("points days-h", 80, points<days, hours>); VF_REG("points ms-ms", 80, points<milliseconds, milliseconds>); VF_REG("points u32ms-s", 80, points<u32ms, seconds>); VF_REG("points i16s-ms", 80, points<i16s, milliseconds>);
VF_REG("std points us-s", 60, stdpoints<std::chrono::microseconds, seconds>); VF_REG("std points ms-min", 60, stdpoints<std::chrono::milliseconds, minutes>);
VF_REG("std points ms-f15", 60, stdpoints<std::chrono::milliseconds, f15>); VF_REG("std points ns-ms", 60, stdpoints<std::chrono::nanoseconds, milliseconds>);
VF_REG("any order", 60, anyorder<hours, minutes, seconds, milliseconds, microseconds, nanoseconds, f15, days, milliseconds, seconds>);

// floating point representations, as far as the library supports them: conversion only
template <class D1, class D2> void fconvert(Ctx& c)
{
    typedef typename dt<D1>::rep R1; typedef typename dt<D2>::rep R2;
    typedef typename dt<D1>::std_type S1; typedef typename dt<D2>::std_type S2;
    for(int i = 0; i < 12; i++)
    {
        R1 v = (R1)((double)c.rng.range(-1000000, 1000000) / (std::is_floating_point<R1>::value ? (double)(1u << c.rng.below(12)) : 1.0));
        D1 a(v); S1 s(v);
        long double want = std::chrono::duration<long double, typename S2::period>(s).count();
        if(!std::is_floating_point<R2>::value && (want > 1e9L || want < -1e9L)) continue;
        D2 b(a); D2 b2 = duration_cast<D2>(a); D2 b3(s);
        c.op("%f -> %Lf", (double)v, want); c.nt(); c.mark((uint64_t)(int64_t)(want * 1000));
        long double tol = std::is_floating_point<R2>::value ? (want < 0 ? -want : want) * (sizeof(R2) == 4 || sizeof(R1) == 4 ? 1e-6L : 1e-14L) : 0;
        auto ok = [&](R2 g) {
            if(std::is_floating_point<R2>::value) return g - want <= tol && want - g <= tol;
            long double w = want < 0 ? -want : want, gg = g < 0 ? -(long double)g : g;     // truncated, give or take rounding at whole ticks
            long double slack = sizeof(R1) == 4 ? w * 1e-6L + 1e-9L : w * 1e-14L + 1e-12L;
            return gg <= w + slack && gg + 1 > w - slack && (g == 0 || (g < 0) == (want < 0)); };
        VF_REQ(ok(b.count()), "conversion of %f gave %f, expected %Lf", (double)v, (double)b.count(), want);
        VF_REQ(ok(b2.count()), "duration_cast of %f gave %f, expected %Lf", (double)v, (double)b2.count(), want);
        VF_REQ(ok(b3.count()), "conversion of std duration %f gave %f, expected %Lf", (double)v, (double)b3.count(), want);
        VF_EV("floating point conversions");
    }
}
typedef duration<double> ds; typedef duration<double, estd::milli> dms; typedef duration<float, estd::ratio<60>> fm;
VF_REG("float ms->ds", 40, fconvert<milliseconds, ds>); VF_REG("float ds->ms", 40, fconvert<ds, milliseconds>); VF_REG("float ds->dms", 40, fconvert<ds, dms>);
VF_REG("float s->fm", 40, fconvert<seconds, fm>); VF_REG("float dms->f15", 40, fconvert<dms, f15>);

#if FEATURE_ESTD_CHRONO_LITERALS
VF_GROUP_W(literals, 10)
{
    using namespace estd::literals::chrono_literals;
    CHK((5s).count(), 5, "5s"); CHK((7ms).count(), 7, "7ms"); CHK((9us).count(), 9, "9us"); CHK((11ns).count(), 11, "11ns");
    CHKB(1s == 1000ms, true, "1s == 1000ms"); CHKB(1ms == 1000us, true, "1ms == 1000us"); CHKB(1us == 1000ns, true, "1us == 1000ns");
    c.nt();
}
#endif
