// C22: durations and time points against exact rational arithmetic on 128 bit integers
#pragma once
#include <chrono>
#include <ratio>
#include <limits>
#include <type_traits>
#include <estd/chrono.h>
#include "../../lib/vf.h"

namespace ch {
using vf::Ctx;
typedef __int128 wide;
namespace ec = estd::chrono;

template <class R> struct lim { static wide lo() { return (wide)std::numeric_limits<R>::min(); } static wide hi() { return (wide)std::numeric_limits<R>::max(); } };
template <class R> bool fits(wide v) { return v >= lim<R>::lo() && v <= lim<R>::hi(); }
template <class R> wide as_wide(R v) { return (wide)v; }

inline wide wgcd(wide a, wide b) { if(a < 0) a = -a; while(b) { wide t = a % b; a = b; b = t; } return a ? a : 1; }
inline wide wabs(wide a) { return a < 0 ? -a : a; }

// a positive rational
struct Q { wide n, d; Q(wide n_, wide d_) : n(n_), d(d_) { wide g = wgcd(n, d); n /= g; d /= g; } };
template <class P> Q q() { return Q(P::num, P::den); }
inline Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }

// count of period P1 expressed in period P2, truncated toward zero; ok = the library's documented
// arithmetic (one multiplication then one division in 64 bits) has room for it
template <class P1, class P2, class From, class To>
bool convertible(wide v, wide& out)
{
    Q f = q<P1>() / q<P2>();
    wide prod = v * f.n;
    out = prod / f.d;
    if(!fits<To>(out) || (v < 0 && std::is_unsigned<To>::value)) return false;
    if(std::is_same<From, uint64_t>::value || std::is_same<To, uint64_t>::value) return v >= 0 && prod <= lim<uint64_t>::hi();
    return fits<int64_t>(prod);
}

// counts biased to where conversions and comparisons change
template <class R>
R gen(Ctx& c, wide step = 1)
{
    vf::Rng& r = c.rng;
    wide v;
    switch(r.below(9))
    {
        case 0: v = (wide)(int64_t)r.edgy(); break;
        case 1: v = r.range(-5, 5); break;
        case 2: v = r.range(-2000, 2000); break;
        case 3: v = lim<R>::hi() - (wide)r.below(4); break;
        case 4: v = lim<R>::lo() + (wide)r.below(4); break;
        case 5: v = step * r.range(-50, 50) + r.range(-1, 1); break;
        case 6: v = (wide)(int64_t)(r.next() >> r.below(64)); if(r.coin()) v = -v; break;
        case 7: v = lim<R>::hi() / (step ? step : 1) + r.range(-2, 2); if(r.coin()) v = -v; break;
        default: v = (wide)(int64_t)r.next(); if(std::is_unsigned<R>::value) v = wabs(v); break;
    }
    if(!fits<R>(v)) v = (wide)(R)v;
    return (R)v;
}

inline std::string ws(wide v)
{
    if(v == 0) return "0";
    bool n = v < 0; std::string s;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    while(u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return n ? "-" + s : s;
}
template <class P> std::string ps() { return ws(P::num) + "/" + ws(P::den); }

#define CHK(got, want, what) do { wide g_ = (wide)(got), w_ = (wide)(want); VF_REQ(g_ == w_, "%s: got %s, expected %s", what, ws(g_).c_str(), ws(w_).c_str()); } while(0)
#define CHKB(got, want, what) do { bool g_ = (got), w_ = (want); VF_REQ(g_ == w_, "%s gave %s, exact arithmetic says %s", what, g_ ? "true" : "false", w_ ? "true" : "false"); } while(0)

template <class D> struct dt;
template <class R, class P> struct dt<ec::duration<R, P>> { typedef R rep; typedef P period; typedef std::chrono::duration<R, std::ratio<P::num, P::den>> std_type; };

// sign of (v1 * P1) - (v2 * P2)
template <class P1, class P2> int order(wide v1, wide v2)
{
    wide a = v1 * (q<P1>() / q<P2>()).n, b = v2 * (q<P1>() / q<P2>()).d;
    return a < b ? -1 : a > b ? 1 : 0;
}

// operand that the common type can hold (so that the library's arithmetic is defined)
template <class D, class CT> bool in_ct(wide v, wide& conv)
{
    return convertible<typename dt<D>::period, typename CT::period, typename dt<D>::rep, typename CT::rep>(v, conv);
}

template <class D1, class D2> void convert(Ctx& c)
{
    typedef typename dt<D1>::rep R1; typedef typename dt<D2>::rep R2;
    typedef typename dt<D1>::period P1; typedef typename dt<D2>::period P2;
    typedef typename dt<D1>::std_type S1;
    Q f = q<P1>() / q<P2>();
    for(int i = 0; i < 12; i++)
    {
        R1 v = gen<R1>(c, f.d > 1 ? f.d : f.n);
        D1 a(v);
        CHK(a.count(), v, "count() of a new duration");
        wide want;
        if(!convertible<P1, P2, R1, R2>((wide)v, want)) continue;
        c.op("%s * %s -> %s as %s", ws((wide)v).c_str(), ps<P1>().c_str(), ps<P2>().c_str(), ws(want).c_str());
        c.nt(); c.mark((uint64_t)v);
        D2 b = a;
        CHK(b.count(), want, "implicit conversion");
        D2 b2(0); b2 = a;
        CHK(b2.count(), want, "assignment from another duration");
        CHK(ec::duration_cast<D2>(a).count(), want, "duration_cast");
        CHK(static_cast<D2>(a).count(), want, "explicit conversion");
        // the same quantity as a standard duration
        S1 s(v);
        D2 b3(s);
        CHK(b3.count(), want, "conversion from std::chrono::duration");
        CHK(ec::duration_cast<D2>(s).count(), want, "duration_cast from std::chrono::duration");
        if(fits<R2>(want))
        {
            typedef typename dt<D2>::std_type S2;
            S2 back = b;
            CHK(back.count(), want, "conversion to std::chrono::duration");
        }
        VF_EV("conversions");
        if((wide)v < 0) VF_EV("negative conversions");
        if(f.d > 1 && ((wide)v * f.n) % f.d) VF_EV("truncating conversions");
        if(f.n > 1 && f.d > 1) VF_EV("conversions by a true fraction");
        // exact conversions come back
        wide back_v;
        if(((wide)v * f.n) % f.d == 0 && convertible<P2, P1, R2, R1>(want, back_v))
        {
            D1 r = b;
            CHK(r.count(), v, "an exact conversion must round trip");
            VF_EV("round trips");
        }
    }
}

template <class D1, class D2> void combine(Ctx& c)
{
    typedef typename dt<D1>::rep R1; typedef typename dt<D2>::rep R2;
    typedef typename dt<D1>::period P1; typedef typename dt<D2>::period P2;
    typedef typename estd::common_type<D1, D2>::type CT;
    typedef typename CT::rep RC; typedef typename CT::period PC;
    Q f = q<P1>() / q<P2>();
    // both periods must be whole multiples of the common one
    Q m1 = q<P1>() / q<PC>(), m2 = q<P2>() / q<PC>();
    VF_REQ(m1.d == 1 && m2.d == 1, "common period of %s and %s cannot represent both", ps<P1>().c_str(), ps<P2>().c_str());
    VF_REQ(sizeof(RC) >= sizeof(R1) && sizeof(RC) >= sizeof(R2), "the common representation is narrower than an operand");
    VF_REQ(!(std::is_signed<R1>::value || std::is_signed<R2>::value) || std::is_signed<RC>::value, "the common representation of a signed operand is unsigned");
    if(std::is_same<R1, R2>::value) VF_REQ((std::is_same<RC, R1>::value), "the common representation of equal ones differs");

    for(int i = 0; i < 12; i++)
    {
        R1 v1 = gen<R1>(c, f.n);
        R2 v2;
        wide near = (wide)v1 * f.n / f.d;
        if(c.rng.chance(2, 3) && fits<R2>(near + 2) && fits<R2>(near - 2)) v2 = (R2)(near + c.rng.range(-1, 1));
        else v2 = gen<R2>(c, f.d);
        wide c1, c2;
        if(!in_ct<D1, CT>((wide)v1, c1) || !in_ct<D2, CT>((wide)v2, c2)) continue;
        D1 a(v1); D2 b(v2);
        c.op("%s * %s  ?  %s * %s", ws((wide)v1).c_str(), ps<P1>().c_str(), ws((wide)v2).c_str(), ps<P2>().c_str());
        c.nt(); c.mark((uint64_t)v1); c.mark((uint64_t)v2);
        int o = order<P1, P2>((wide)v1, (wide)v2);
        CHKB(a < b, o < 0, "a < b"); CHKB(a > b, o > 0, "a > b"); CHKB(a <= b, o <= 0, "a <= b");
        CHKB(a >= b, o >= 0, "a >= b"); CHKB(a == b, o == 0, "a == b"); CHKB(a != b, o != 0, "a != b");
        CHKB(b < a, o > 0, "b < a"); CHKB(b > a, o < 0, "b > a"); CHKB(b <= a, o >= 0, "b <= a");
        CHKB(b >= a, o <= 0, "b >= a"); CHKB(b == a, o == 0, "b == a"); CHKB(b != a, o != 0, "b != a");
        VF_EV("comparisons");
        if(o == 0) VF_EV("equal quantities"); 
        if(o != 0 && near == (wide)v2) VF_EV("compared within one tick");
        if(fits<RC>(c1 + c2) && fits<int64_t>(c1 + c2))
        {
            CT s = a + b; CHK(s.count(), c1 + c2, "a + b");
            CT s2 = b + a; CHK(s2.count(), c1 + c2, "b + a");
            VF_EV("sums");
        }
        if(fits<RC>(c1 - c2) && fits<int64_t>(c1 - c2))
        {
            CT s = a - b; CHK(s.count(), c1 - c2, "a - b");
            VF_EV("differences");
            if(c1 < c2) VF_EV("negative differences");
        }
        // in place operations take the operand in the target's own period
        wide conv;
        if(convertible<P2, P1, R2, R1>((wide)v2, conv))
        {
            if(fits<R1>((wide)v1 + conv)) { D1 t(a); D1& r = (t += b); VF_REQ(&r == &t, "+= must return its operand"); CHK(t.count(), (wide)v1 + conv, "a += b"); VF_EV("in place sums"); }
            if(fits<R1>((wide)v1 - conv)) { D1 t(a); D1& r = (t -= b); VF_REQ(&r == &t, "-= must return its operand"); CHK(t.count(), (wide)v1 - conv, "a -= b"); }
        }
        CHK(a.count(), v1, "operands must not change"); CHK(b.count(), v2, "operands must not change");
    }
}

template <class D> void single(Ctx& c)
{
    typedef typename dt<D>::rep R;
    for(int i = 0; i < 12; i++)
    {
        R v = gen<R>(c);
        D a(v);
        c.op("single %s", ws((wide)v).c_str()); c.nt(); c.mark((uint64_t)v);
        CHK((+a).count(), v, "+a");
        D cp(a); CHK(cp.count(), v, "copy");
        D as(0); as = a; CHK(as.count(), v, "assignment");
        if constexpr(std::is_signed<R>::value)
        {
            if((wide)v != lim<R>::lo())
            {
                CHK((-a).count(), -(wide)v, "-a");
                CHK(ec::abs(a).count(), wabs((wide)v), "abs");
                VF_EV("negations");
            }
        }
        else { CHK(ec::abs(a).count(), v, "abs"); }
        R k = gen<R>(c); if(c.rng.coin()) k = (R)c.rng.range(0, 12);
        wide p = (wide)v * (wide)k;
        if(fits<R>(p)) { D t(a); D& r = (t *= k); VF_REQ(&r == &t, "*= must return its operand"); CHK(t.count(), p, "a *= k"); VF_EV("in place products"); }
        int k2 = (int)c.rng.range(-1000, 1000);
        typedef typename std::common_type<R, int>::type C2;
        if(std::is_signed<C2>::value || k2 >= 0)
        {
            wide p2 = (wide)v * k2;
            if(fits<C2>(p2)) { auto t = a * k2; CHK(t.count(), p2, "a * k"); VF_REQ((std::is_same<typename decltype(t)::period, typename D::period>::value), "a * k changed the period"); VF_EV("products"); }
        }
        CHK(D::zero().count(), 0, "zero()"); CHK(D::min().count(), lim<R>::lo(), "min()"); CHK(D::max().count(), lim<R>::hi(), "max()");
        CHKB(a >= D::min(), true, "a >= min()"); CHKB(a <= D::max(), true, "a <= max()");
        CHKB(a == D::zero(), v == 0, "a == zero()");
        if constexpr(std::is_signed<R>::value)
        {
            CHKB(a < D::zero(), v < 0, "a < zero()");
        }
        int w = (int)c.rng.range(-100, 100); if(std::is_unsigned<R>::value && w < 0) w = -w;
        D fromint(w); CHK(fromint.count(), w, "construction from another integer type");
        VF_EV("single duration checks");
    }
}

// sum of many durations of mixed periods is independent of the order of combination
template <class ...Ds> void anyorder(Ctx& c)
{
    typedef ec::nanoseconds N;
    std::vector<N> terms; wide total = 0; std::vector<std::pair<int, int64_t>> raw;
    auto one = [&](auto d) { typedef decltype(d) D; int64_t v = c.rng.range(-100, 100); D t((typename dt<D>::rep)v); terms.push_back(t); 
        Q f = q<typename dt<D>::period>() / q<estd::nano>(); total += v * f.n / f.d; };
    (one(Ds(0)), ...);
    if(!fits<int64_t>(total)) return;
    N fwd = N::zero(), bwd = N::zero();
    for(size_t i = 0; i < terms.size(); i++) fwd = fwd + terms[i];
    for(size_t i = terms.size(); i-- > 0;) bwd += terms[i];
    c.op("sum of %zu mixed durations = %s ns", terms.size(), ws(total).c_str()); c.nt(); c.mark((uint64_t)total);
    CHK(fwd.count(), total, "sum in order"); CHK(bwd.count(), total, "sum in reverse order");
    VF_EV("mixed sums");
}

struct clk { int64_t t = 0; typedef int64_t rep; typedef estd::milli period; typedef ec::duration<rep, period> duration; typedef ec::time_point<clk> time_point;
    time_point now() { return time_point(duration(t)); } };

template <class D1, class D2> void points(Ctx& c)
{
    typedef typename dt<D1>::rep R1; typedef typename dt<D2>::rep R2;
    typedef typename dt<D1>::period P1; typedef typename dt<D2>::period P2;
    typedef ec::time_point<clk, D1> T1; typedef ec::time_point<clk, D2> T2;
    typedef typename estd::common_type<D1, D2>::type CT; typedef typename CT::rep RC;
    Q f = q<P1>() / q<P2>();
    CHK(T1().time_since_epoch().count(), 0, "a default time point is the epoch");
    CHK(T1::min().time_since_epoch().count(), lim<R1>::lo(), "time_point::min()");
    for(int i = 0; i < 12; i++)
    {
        R1 v1 = gen<R1>(c, f.n); R2 v2;
        wide near = (wide)v1 * f.n / f.d;
        if(c.rng.chance(2, 3) && fits<R2>(near + 2) && fits<R2>(near - 2)) v2 = (R2)(near + c.rng.range(-1, 1)); else v2 = gen<R2>(c, f.d);
        T1 a{D1(v1)}; T2 b{D2(v2)};
        CHK(a.time_since_epoch().count(), v1, "time_since_epoch");
        c.op("points %s * %s, %s * %s", ws((wide)v1).c_str(), ps<P1>().c_str(), ws((wide)v2).c_str(), ps<P2>().c_str());
        wide conv;
        if(convertible<P2, P1, R2, R1>((wide)v2, conv))
        {
            T1 t(b); CHK(t.time_since_epoch().count(), conv, "time point converted to another precision");
            D1 d(b.time_since_epoch());
            if(fits<R1>((wide)v1 + conv))
            {
                T1 u = a + d; CHK(u.time_since_epoch().count(), (wide)v1 + conv, "tp + d");
                T1 w(a); T1& r = (w += d); VF_REQ(&r == &w, "+= must return its operand"); CHK(w.time_since_epoch().count(), (wide)v1 + conv, "tp += d");
                T1 x = u - d; CHKB(x == a, true, "(tp + d) - d == tp");
                CHK(a.time_since_epoch().count(), v1, "tp + d must not change tp");
                if(fits<int64_t>((wide)v1 + conv)) { auto df = u - a; CHK(df.count(), conv, "(tp + d) - tp"); }
                VF_EV("time point sums");
            }
            if(fits<R1>((wide)v1 - conv)) { T1 w(a); T1& r = (w -= d); VF_REQ(&r == &w, "-= must return its operand"); CHK(w.time_since_epoch().count(), (wide)v1 - conv, "tp -= d");
                CHK((a - d).time_since_epoch().count(), (wide)v1 - conv, "tp - d"); }
        }
        wide c1, c2;
        if(!in_ct<D1, CT>((wide)v1, c1) || !in_ct<D2, CT>((wide)v2, c2)) continue;
        c.nt(); c.mark((uint64_t)v1); c.mark((uint64_t)v2);
        int o = order<P1, P2>((wide)v1, (wide)v2);
        CHKB(a < b, o < 0, "tp < tp"); CHKB(a > b, o > 0, "tp > tp"); CHKB(a >= b, o >= 0, "tp >= tp");
        CHKB(a == b, o == 0, "tp == tp"); CHKB(a != b, o != 0, "tp != tp");
        CHKB(b < a, o > 0, "tp < tp"); CHKB(b >= a, o <= 0, "tp >= tp");
        VF_EV("time point comparisons");
        if(fits<RC>(c1 - c2)) { CT d = a - b; CHK(d.count(), c1 - c2, "tp - tp"); VF_EV("time point differences"); }
    }
}

// standard time points combined with estd durations
template <class SD, class D> void stdpoints(Ctx& c)
{
    typedef std::chrono::time_point<std::chrono::system_clock, SD> TP;
    typedef typename dt<D>::std_type S; typedef typename dt<D>::rep R;
    for(int i = 0; i < 8; i++)
    {
        int64_t v = c.rng.range(-2000000000000ll, 2000000000000ll); R k = (R)c.rng.range(std::is_unsigned<R>::value ? 0 : -100, 100);
        TP tp{SD((typename SD::rep)v)}; D d(k); S s(k);
        c.op("std point %lld with %lld * %s", (long long)v, (long long)k, ps<typename dt<D>::period>().c_str()); c.nt(); c.mark((uint64_t)v + (uint64_t)k);
        VF_REQ(tp + d == tp + s, "std::time_point + estd duration"); VF_REQ(tp - d == tp - s, "std::time_point - estd duration");
        TP a = tp, b = tp; 
        if constexpr(std::is_convertible<S, SD>::value)
        {
            a += d; b += s; VF_REQ(a == b, "std::time_point += estd duration"); a -= d; VF_REQ(a == tp, "std::time_point -= estd duration");
        }
        ec::time_point<std::chrono::system_clock, ec::nanoseconds> e(tp);
        wide w = (wide)v * (q<typename SD::period>() / q<std::nano>()).n / (q<typename SD::period>() / q<std::nano>()).d;
        if(fits<int64_t>(w)) { CHK(e.time_since_epoch().count(), w, "estd time_point from a standard one"); }
        VF_EV("standard time points");
    }
}
}
