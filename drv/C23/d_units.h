// C23: ratios and units against exact rational arithmetic
#pragma once
#include <ratio>
#include <limits>
#include <string>
#include <type_traits>
#include <estd/ratio.h>
#include <estd/internal/units/base.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/ostream.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
#include <estd/sstream.h>
#include <estd/type_traits.h>
#include "../../lib/vf.h"

struct frequency_tag {};
struct temperature_tag {};
namespace estd { namespace internal { namespace units {
template <> struct traits<frequency_tag> { static constexpr const char* name() { return "hertz"; } static constexpr const char* abbrev() { return "Hz"; } };
template <> struct traits<temperature_tag> { static constexpr const char* name() { return "celsius"; } static constexpr const char* abbrev() { return "C"; } };
}}}

namespace un {
using vf::Ctx;
namespace eu = estd::internal::units;
typedef __int128 wide;

template <class Rep, class Period = estd::ratio<1>, typename F = eu::passthrough<Rep>> using hz = eu::unit_base<Rep, Period, frequency_tag, F>;
template <class Rep, class Period = estd::ratio<1>, typename F = eu::passthrough<Rep>> using temp = eu::unit_base<Rep, Period, temperature_tag, F>;

template <class R> struct lim { static wide lo() { return (wide)std::numeric_limits<R>::min(); } static wide hi() { return (wide)std::numeric_limits<R>::max(); } };
template <class R> bool fits(wide v) { return v >= lim<R>::lo() && v <= lim<R>::hi(); }
inline wide wabs(wide a) { return a < 0 ? -a : a; }
inline wide wgcd(wide a, wide b) { a = wabs(a); b = wabs(b); while(b) { wide t = a % b; a = b; b = t; } return a ? a : 1; }
struct Q { wide n, d; Q(wide n_, wide d_) : n(n_), d(d_) { if(d < 0) { n = -n; d = -d; } wide g = wgcd(n, d); n /= g; d /= g; }
    bool operator==(const Q& o) const { return n == o.n && d == o.d; } };
inline Q operator*(Q a, Q b) { return Q(a.n * b.n, a.d * b.d); }
inline Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }
inline Q operator+(Q a, Q b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
template <class P> Q q() { return Q(P::num, P::den); }

inline std::string ws(wide v)
{
    if(v == 0) return "0";
    bool n = v < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    while(u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return n ? "-" + s : s;
}
template <class P> std::string ps() { return ws(P::num) + "/" + ws(P::den); }

#define CHK(got, want, what) do { wide g_ = (wide)(got), w_ = (wide)(want); VF_REQ(g_ == w_, "%s: got %s, expected %s", what, ws(g_).c_str(), ws(w_).c_str()); } while(0)
#define CHKB(got, want, what) do { bool g_ = (got), w_ = (want); VF_REQ(g_ == w_, "%s gave %s, exact arithmetic says %s", what, g_ ? "true" : "false", w_ ? "true" : "false"); } while(0)

template <class R> R gen(Ctx& c, wide step = 1)
{
    vf::Rng& r = c.rng; wide v;
    switch(r.below(8))
    {
        case 0: v = (wide)(int64_t)r.edgy(); break;
        case 1: v = r.range(-5, 5); break;
        case 2: v = r.range(-2000, 2000); break;
        case 3: v = lim<R>::hi() - (wide)r.below(4); break;
        case 4: v = lim<R>::lo() + (wide)r.below(4); break;
        case 5: v = step * r.range(-50, 50) + r.range(-1, 1); break;
        case 6: v = (wide)(int64_t)(r.next() >> r.below(64)); if(r.coin()) v = -v; break;
        default: v = lim<R>::hi() / (step ? step : 1) + r.range(-2, 2); if(r.coin()) v = -v; break;
    }
    if(!fits<R>(v)) v = (wide)(R)v;
    return (R)v;
}

template <class U> struct ut;
template <class R, class P, class T, class F> struct ut<eu::unit_base<R, P, T, F>> { typedef R rep; typedef P period; typedef F proj; };

template <class P1, class P2, class To> bool convertible(wide v, wide& out)
{
    Q f = q<P1>() / q<P2>();
    wide prod = v * f.n; out = prod / f.d;
    if(v < 0 && std::is_unsigned<To>::value) return false;      // not representable, whatever truncation would make of it
    return fits<To>(out) && fits<int64_t>(prod);
}

template <class U1, class U2> void convert(Ctx& c)
{
    typedef typename ut<U1>::rep R1; typedef typename ut<U2>::rep R2; typedef typename ut<U1>::period P1; typedef typename ut<U2>::period P2;
    Q f = q<P1>() / q<P2>();
    for(int i = 0; i < 12; i++)
    {
        R1 v = gen<R1>(c, f.d > 1 ? f.d : f.n);
        U1 a(v);
        CHK(a.count(), v, "count() of a new unit"); CHK(a.root_count(), v, "root_count() of a new unit");
        U1 a2(a), a3(R1(0)); a3 = a; CHK(a2.count(), v, "copy"); CHK(a3.count(), v, "assignment"); CHKB(a == a2, true, "copy == original");
        U1 a4(R1(0)); a4.root_count(v); CHK(a4.count(), v, "root_count(v)");
        wide want;
        if(!convertible<P1, P2, R2>((wide)v, want)) continue;
        c.op("%s * %s -> %s as %s", ws((wide)v).c_str(), ps<P1>().c_str(), ws(want).c_str(), ps<P2>().c_str()); c.nt(); c.mark((uint64_t)v);
        U2 b(a); CHK(b.count(), want, "converting construction");
        U2 b2(R2(0)); b2 = a; CHK(b2.count(), want, "converting assignment");
        VF_EV("conversions"); if((wide)v < 0) VF_EV("negative conversions"); if(f.d > 1 && ((wide)v * f.n) % f.d) VF_EV("truncating conversions");
    }
}

template <class U1, class U2> void combine(Ctx& c)
{
    typedef typename ut<U1>::rep R1; typedef typename ut<U2>::rep R2; typedef typename ut<U1>::period P1; typedef typename ut<U2>::period P2;
    typedef decltype(eu::ct_helper(std::declval<U1>(), std::declval<U2>())) CT; typedef typename ut<CT>::rep RC; typedef typename ut<CT>::period PC;
    Q f = q<P1>() / q<P2>(), m1 = q<P1>() / q<PC>(), m2 = q<P2>() / q<PC>();
    VF_REQ(m1.d == 1 && m2.d == 1, "the common scale of %s and %s cannot represent both", ps<P1>().c_str(), ps<P2>().c_str());
    VF_REQ(sizeof(RC) >= sizeof(R1) && sizeof(RC) >= sizeof(R2), "the common representation is narrower than an operand");
    VF_REQ(!(std::is_signed<R1>::value || std::is_signed<R2>::value) || std::is_signed<RC>::value, "the common representation of a signed operand is unsigned");
    for(int i = 0; i < 12; i++)
    {
        R1 v1 = gen<R1>(c, f.n); R2 v2; wide near = (wide)v1 * f.n / f.d;
        if(c.rng.chance(2, 3) && fits<R2>(near + 2) && fits<R2>(near - 2)) v2 = (R2)(near + c.rng.range(-1, 1)); else v2 = gen<R2>(c, f.d);
        wide c1, c2;
        if(!convertible<P1, PC, RC>((wide)v1, c1) || !convertible<P2, PC, RC>((wide)v2, c2)) continue;
        U1 a(v1); U2 b(v2);
        c.op("%s * %s  ?  %s * %s", ws((wide)v1).c_str(), ps<P1>().c_str(), ws((wide)v2).c_str(), ps<P2>().c_str()); c.nt(); c.mark((uint64_t)v1); c.mark((uint64_t)v2);
        wide x = (wide)v1 * f.n, y = (wide)v2 * f.d; int o = x < y ? -1 : x > y ? 1 : 0;
        CHKB(a < b, o < 0, "a < b"); CHKB(a > b, o > 0, "a > b"); CHKB(a <= b, o <= 0, "a <= b"); CHKB(a >= b, o >= 0, "a >= b"); CHKB(a == b, o == 0, "a == b"); CHKB(a != b, o != 0, "a != b");
        CHKB(b < a, o > 0, "b < a"); CHKB(b > a, o < 0, "b > a"); CHKB(b <= a, o >= 0, "b <= a"); CHKB(b >= a, o <= 0, "b >= a"); CHKB(b == a, o == 0, "b == a"); CHKB(b != a, o != 0, "b != a");
        VF_EV("comparisons"); if(o == 0) VF_EV("equal quantities"); else if(near == (wide)v2) VF_EV("compared within one tick");
        if(fits<RC>(c1 + c2) && fits<int64_t>(c1 + c2)) { CT s = a + b; CHK(s.count(), c1 + c2, "a + b"); CT s2 = b + a; CHK(s2.count(), c1 + c2, "b + a"); VF_EV("sums"); }
        if(fits<RC>(c1 - c2) && fits<int64_t>(c1 - c2)) { CT s = a - b; CHK(s.count(), c1 - c2, "a - b"); VF_EV("differences"); }
        if constexpr(std::is_same<CT, U1>::value)
        {
            if(fits<R1>(c1 + c2)) { U1 t(a); U1& r = (t += b); VF_REQ(&r == &t, "+= must return its operand"); CHK(t.count(), c1 + c2, "a += b"); VF_EV("in place sums"); }
            if(fits<R1>(c1 - c2)) { U1 t(a); U1& r = (t -= b); VF_REQ(&r == &t, "-= must return its operand"); CHK(t.count(), c1 - c2, "a -= b"); }
        }
        if constexpr(std::is_same<CT, U2>::value && !std::is_same<CT, U1>::value)
        {
            if(fits<R2>(c1 + c2)) { U2 t(b); U2& r = (t += a); VF_REQ(&r == &t, "+= must return its operand"); CHK(t.count(), c1 + c2, "b += a"); VF_EV("in place sums"); if(f.n != 1 || f.d != 1) VF_EV("in place sums of a coarser unit"); }
            if(fits<R2>(c2 - c1)) { U2 t(b); U2& r = (t -= a); VF_REQ(&r == &t, "-= must return its operand"); CHK(t.count(), c2 - c1, "b -= a"); }
        }
        CHK(a.count(), v1, "operands must not change"); CHK(b.count(), v2, "operands must not change");
    }
}

template <class U> void single(Ctx& c)
{
    typedef typename ut<U>::rep R;
    for(int i = 0; i < 12; i++)
    {
        R v = gen<R>(c), w = c.rng.coin() ? gen<R>(c) : (R)((wide)v + c.rng.range(-1, 1));
        U a(v), b(w);
        c.op("%s, %s", ws((wide)v).c_str(), ws((wide)w).c_str()); c.nt(); c.mark((uint64_t)v); c.mark((uint64_t)w);
        CHKB(a == b, v == w, "a == b"); CHKB(a < b, v < w, "a < b"); CHKB(a > b, v > w, "a > b"); CHKB(a <= b, v <= w, "a <= b"); CHKB(a >= b, v >= w, "a >= b"); CHKB(a != b, v != w, "a != b");
        if(fits<R>((wide)v + w)) { CHK((a + b).count(), (wide)v + w, "a + b"); U t(a); t += b; CHK(t.count(), (wide)v + w, "a += b"); }
        if(fits<R>((wide)v - w)) { CHK((a - b).count(), (wide)v - w, "a - b"); U t(a); t -= b; CHK(t.count(), (wide)v - w, "a -= b"); }
        if((wide)v != lim<R>::hi()) { U t(a); U& r = ++t; VF_REQ(&r == &t, "++ must return its operand"); CHK(t.count(), (wide)v + 1, "++a"); }
        if constexpr(std::is_signed<R>::value && sizeof(R) >= 4) { if((wide)v != lim<R>::lo()) { CHK((-a).count(), -(wide)v, "-a"); } }
        VF_EV("same type operations");
        if constexpr(std::is_same<typename ut<U>::period, estd::ratio<1>>::value)
        {
            CHKB(a == w, v == w, "a == number"); CHKB(a > w, v > w, "a > number"); CHKB(a < w, v < w, "a < number");
            if(fits<R>((wide)v + w)) { U t(a); t += w; CHK(t.count(), (wide)v + w, "a += number"); }
            if(fits<R>((wide)v - w)) { U t(a); t -= w; CHK(t.count(), (wide)v - w, "a -= number"); }
            int k = (int)c.rng.range(0, 60);
            if(fits<R>((wide)v + k)) { U t(a); t += (uint8_t)k; CHK(t.count(), (wide)v + k, "a += byte"); }
            VF_EV("operations with plain numbers");
        }
    }
}
}
