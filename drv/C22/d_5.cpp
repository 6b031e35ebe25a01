#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
template <> struct estd::chrono::internal::clock_traits<clk> : estd::chrono::internal::unix_epoch_clock_traits {};

// the unsigned-hour representation bounds the domain to less than 256 hours
template <class D> void hms(Ctx& c)
{
    typedef typename dt<D>::rep R; typedef typename dt<D>::period P;
    wide tick_per_s = (wide)P::den / P::num; bool coarse = P::num > 1;
    for(int i = 0; i < 12; i++)
    {
        wide lim_t = (wide)256 * 3600 * P::den / P::num - 1;
        if(lim_t > lim<R>::hi()) lim_t = lim<R>::hi();
        wide v;
        switch(c.rng.below(4))
        {
            case 0: v = (wide)c.rng.below((uint64_t)lim_t + 1); break;
            case 1: v = (wide)c.rng.below(255) * 3600 * P::den / P::num + c.rng.range(-2, 2); break;
            case 2: v = (wide)c.rng.below(255 * 60) * 60 * P::den / P::num + c.rng.range(-2, 2); break;
            default: v = (wide)c.rng.below(10000); break;
        }
        if(v < 0) v = 0;
        if(v > lim_t) v = lim_t;
        bool neg = std::is_signed<R>::value && c.rng.coin();
        if(neg) v = -v;
        D d((R)v);
        hh_mm_ss<D> t{d};
        wide m = wabs(v), secs = m * P::num / P::den;
        c.op("hh_mm_ss of %s * %s", ws(v).c_str(), ps<P>().c_str()); c.nt(); c.mark((uint64_t)v);
        CHK(t.hours().count(), secs / 3600, "hours()"); CHK(t.minutes().count(), secs / 60 % 60, "minutes()"); CHK(t.seconds().count(), secs % 60, "seconds()");
        CHK(t.subseconds().count(), coarse ? 0 : m % tick_per_s, "subseconds()");
        CHKB(t.is_negative(), v < 0, "is_negative()");
        CHK(t.to_duration().count(), v, "to_duration()");
        VF_EV("split into hours, minutes and seconds");
        if(secs >= 256 * 60) VF_EV("split of more than 255 minutes");
        if(v < 0) VF_EV("split of a negative duration");
    }
}
typedef duration<uint32_t, estd::milli> u32ms; typedef duration<int16_t> i16s; typedef duration<int32_t, estd::ratio<1, 15>> f15; typedef duration<uint64_t, estd::milli> u64ms;
VF_REG("hms ms", 60, hms<milliseconds>); VF_REG("hms ns", 60, hms<nanoseconds>); VF_REG("hms s", 60, hms<seconds>); VF_REG("hms u32ms", 60, hms<u32ms>); VF_REG("hms i16s", 60, hms<i16s>);
VF_REG("hms f15", 60, hms<f15>); VF_REG("hms min", 60, hms<minutes>);

VF_GROUP_W(hms_std, 40)
{
    int64_t v = c.rng.range(-900000, 900000);
    std::chrono::seconds s{v};
    hh_mm_ss<std::chrono::seconds> t{s};
    wide m = wabs(v);
    c.op("hh_mm_ss of std seconds %lld", (long long)v); c.nt(); c.mark((uint64_t)v);
    CHK(t.hours().count(), m / 3600, "hours()"); CHK(t.minutes().count(), m / 60 % 60, "minutes()"); CHK(t.seconds().count(), m % 60, "seconds()");
    CHKB(t.is_negative(), v < 0, "is_negative()");
}

static int mdays(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; bool l = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return m == 2 && l ? 29 : d[m - 1]; }

VF_GROUP_W(calendar_fields, 100)
{
    int y = c.rng.coin() ? (int)c.rng.range(-32767, 32767) : (int)c.rng.range(1, 25) * 100 + (int)c.rng.below(5);
    int m = (int)c.rng.range(0, 14), d = (int)c.rng.range(0, 33);
    c.op("%d-%d-%d", y, m, d); c.nt(); c.mark((uint64_t)(y * 1000 + m * 40 + d));
    year yy{y}; month mm{m}; day dd{d};
    CHK((int)yy, y, "year"); CHK((unsigned)mm, m, "month"); CHK((unsigned)dd, d, "day");
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    CHKB(yy.is_leap(), leap, "is_leap");
    CHKB(yy.ok(), true, "year.ok()"); CHKB(mm.ok(), m >= 1 && m <= 12, "month.ok()"); CHKB(dd.ok(), d >= 1 && d <= 31, "day.ok()");
    internal::year_month_day<void> ymd{yy, mm, dd};
    CHKB(ymd.ok(), m >= 1 && m <= 12 && d >= 1 && d <= 31, "year_month_day.ok()");
    CHK((int)ymd.year(), y, "year()"); CHK((unsigned)ymd.month(), m, "month()"); CHK((unsigned)ymd.day(), d, "day()");
    internal::month_day_last<clk> mdl{mm}; internal::year_month_day_last<clk> l{yy, mdl};
    CHKB(l.ok(), m >= 1 && m <= 12, "year_month_day_last.ok()");
    CHK((int)l.year(), y, "year()");
    if(m >= 1 && m <= 12) { CHK((unsigned)l.day(), mdays(y, m), "last day of the month"); VF_EV("last day of the month"); if(leap) VF_EV("leap years"); }
    {
        const month all[] = { January, February, March, April, May, June, July, August, September, October, November, December };
        for(unsigned i = 0; i < 12; ++i) { CHK((unsigned)all[i], i + 1, "named month"); CHKB(all[i] == mm, (int)i + 1 == m, "month =="); } VF_EV("named months");
    }
    int k = (int)c.rng.range(-1000, 1000);
    if(y + k >= -32767 && y + k <= 32767)
    {
        CHK((int)(yy + years(k)), y + k, "year + years"); CHK((int)(years(k) + yy), y + k, "years + year");
        year t = yy; t += year(k); CHK((int)t, y + k, "year += year"); t -= year(k); CHK((int)t, y, "year -= year");
        VF_EV("year arithmetic");
    }
}

// The calendar split of a time point uses mean months and years: the year is exact except within two
// days of a year's end, the month is off by at most one
VF_GROUP_W(calendar_of_point, 100)
{
    // civil date from day number (days since 1970-01-01), counted independently
    int z = (int)c.rng.below(80000);
    int y = 1970, m = 1, r = z;
    for(;;) { int len = mdays(y, 2) == 29 ? 366 : 365; if(r < len) break; r -= len; y++; }
    int doy = r, ylen = mdays(y, 2) == 29 ? 366 : 365;
    while(r >= mdays(y, m)) { r -= mdays(y, m); m++; }
    c.op("day %d is %d-%02d-%02d", z, y, m, r + 1); c.nt(); c.mark((uint64_t)z);
    time_point<clk, days> tp{days(z)};
    internal::year_month_day<clk> ymd{tp};
    // days of a (mean) month follow one another, starting over with the next month; the very first month is exact
    internal::year_month_day<clk> nxt{time_point<clk, days>(days(z + 1))}; unsigned gd = (unsigned)ymd.days(), nd = (unsigned)nxt.days();
    VF_REQ(gd >= 1 && gd <= 31 && nd >= 1 && nd <= 31, "day of the month of day %d is %u, then %u", z, gd, nd);
    VF_REQ(nd == gd + 1 || (nd <= 2 && gd >= 29), "day of the month of day %d is %u, that of the next day %u", z, gd, nd);
    { int e = (int)c.rng.below(30); CHK((unsigned)internal::year_month_day<clk>(time_point<clk, days>(days(e))).days(), e + 1, "day of the first month"); } VF_EV("day of the month");
    if(doy >= 2 && doy < ylen - 2)
    {
        CHK((int)ymd.year(), y, "year of a time point");
        int gm = (int)(unsigned)ymd.month();
        VF_REQ(gm >= m - 1 && gm <= m + 1, "month of day %d is %d, expected about %d", z, gm, m);
        VF_EV("calendar of a time point");
    }
}
