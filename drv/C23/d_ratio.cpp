#include "d_units.h"
using namespace un; using un::q;
template <class ...> struct L {};
struct N { intmax_t n, d; };
template <class P> constexpr N nd() { return N { P::num, P::den }; }
static Q q(N x) { return Q(x.n, x.d); }
struct P { N a, b, m, md, s, sd, d, dd, d1, d2, ds; bool div; };
template <class A, class B> constexpr P results()
{
    typedef estd::ratio_multiply<A, B> M; typedef estd::ratio_add<A, B> S; typedef estd::detail::ratio_multiply<A, B> Md; typedef estd::detail::ratio_add<A, B> Sd;
    if constexpr(B::num != 0)
    {
        typedef std::ratio<A::num, A::den> sA; typedef std::ratio<B::num, B::den> sB;
        return P { nd<A>(), nd<B>(), nd<M>(), nd<Md>(), nd<S>(), nd<Sd>(), nd<estd::ratio_divide<A, B>>(), nd<estd::detail::ratio_divide<A, B>>(), nd<estd::ratio_divide<sA, B>>(), nd<estd::ratio_divide<A, sB>>(), nd<std::ratio_divide<sA, sB>>(), true };
    }
    else return P { nd<A>(), nd<B>(), nd<M>(), nd<Md>(), nd<S>(), nd<Sd>(), {}, {}, {}, {}, {}, false };
}
static void check(Ctx& c, const P& p)
{
    auto t = [](N x) { return ws(x.n) + "/" + ws(x.d); };
    c.op("%s with %s", t(p.a).c_str(), t(p.b).c_str());
    Q a = q(p.a), b = q(p.b);
    VF_REQ(q(p.m) == a * b && q(p.md) == a * b, "%s * %s gave %s", t(p.a).c_str(), t(p.b).c_str(), t(p.m).c_str());
    VF_REQ(wgcd(p.m.n, p.m.d) == 1, "%s * %s gave %s, which is not reduced", t(p.a).c_str(), t(p.b).c_str(), t(p.m).c_str());
    VF_REQ(q(p.s) == a + b && q(p.sd) == a + b, "%s + %s gave %s", t(p.a).c_str(), t(p.b).c_str(), t(p.s).c_str());
    VF_REQ(wgcd(p.s.n, p.s.d) == 1, "%s + %s gave %s, which is not reduced", t(p.a).c_str(), t(p.b).c_str(), t(p.s).c_str());
    bool pos = p.a.n > 0 && p.b.n > 0;
    if(pos) VF_REQ(p.m.n > 0 && p.m.d > 0 && p.s.n > 0 && p.s.d > 0, "positive results must have positive parts");
    if(p.div)
    {
        VF_REQ(q(p.d) == a / b && q(p.dd) == a / b, "%s / %s gave %s", t(p.a).c_str(), t(p.b).c_str(), t(p.d).c_str());
        VF_REQ(wgcd(p.d.n, p.d.d) == 1, "%s / %s gave %s, which is not reduced", t(p.a).c_str(), t(p.b).c_str(), t(p.d).c_str());
        VF_REQ(q(p.d1) == a / b && q(p.d2) == a / b && q(p.ds) == a / b, "%s / %s with standard ratios gave %s, %s", t(p.a).c_str(), t(p.b).c_str(), t(p.d1).c_str(), t(p.d2).c_str());
        if(pos) VF_REQ(p.d.n > 0 && p.d.d > 0, "a positive quotient must have positive parts");
    }
    VF_EV("ratio pairs"); c.mark((uint64_t)(p.a.n * 31 + p.a.d * 7 + p.b.n * 3 + p.b.d));
}
template <class A> void one(Ctx& c)
{
    typedef typename A::type T;
    VF_REQ(q<T>() == q<A>() && wgcd(T::num, T::den) == 1, "%s reduces to %s", ps<A>().c_str(), ps<T>().c_str());
    VF_REQ((std::is_same<typename T::type, T>::value), "a reduced ratio must reduce to itself");
    typedef std::ratio<A::num, A::den> S;
    if(A::num > 0) VF_REQ(T::num == S::num && T::den == S::den, "%s reduces to %s, std reduces to %s", ps<A>().c_str(), ps<T>().c_str(), ps<S>().c_str());
}
template <class A, class ...B> void row(Ctx& c, L<B...>) { (one<A>)(c); static constexpr P t[] = { results<A, B>()... }; for(auto& p : t) check(c, p); }
template <intmax_t n, intmax_t d = 1> using r = estd::ratio<n, d>;
typedef L<estd::nano, estd::micro, estd::milli, estd::centi, estd::deci, r<1>, estd::deca, estd::kilo, estd::mega, estd::giga, r<1, 3>, r<2, 3>, r<25, 100>, r<100, 1024>, r<7, 5>, r<60>, r<3600>, r<86400>, r<6, 4>, r<-1, 3>, r<-4, 6>, r<0, 5>, r<1024>, r<31556952>> all;
template <class ...A> void table(Ctx& c, L<A...>) { (row<A>(c, all()), ...); }
VF_GROUP_W(ratio_table, 3) { c.nt(); table(c, all()); }
VF_GROUP_W(si_ratios, 3)
{
    c.nt();
    VF_REQ(q<estd::pico>() == q<std::pico>() && q<estd::nano>() == q<std::nano>() && q<estd::micro>() == q<std::micro>() && q<estd::milli>() == q<std::milli>() && q<estd::centi>() == q<std::centi>() && q<estd::deci>() == q<std::deci>(), "small SI ratios");
    VF_REQ(q<estd::deca>() == q<std::deca>() && q<estd::kilo>() == q<std::kilo>() && q<estd::mega>() == q<std::mega>() && q<estd::giga>() == q<std::giga>() && q<estd::tera>() == q<std::tera>(), "large SI ratios");
    VF_EV("SI ratios");
}
