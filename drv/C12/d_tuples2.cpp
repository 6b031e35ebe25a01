#include "d_tuple.h"
using namespace opt;
TUP("tuple<E0,E1,E2>", 20, true, true, E0, E1, E2);
TUP("tuple<signed char,long long,signed char,const char*,bool,Tracked,double,Wide>", 80, true, true, signed char, long long, signed char, const char*, bool, Tracked, double, Wide);
TUP("tuple<Strict,Frozen,E0,Quiet>", 50, true, true, Strict, Frozen, E0, Quiet);
TUP("tuple<monostate,std::string>", 30, true, true, estd::monostate, std::string);
// references
VF_GROUP_W(references, 60)
{
    Ledger::reset();
    {
        int a = (int)c.rng.range(1, 99); Tracked b((int)c.rng.range(1, 99)); const std::string s = Make<std::string>::of((int)c.rng.range(1, 99)); Tracked m(7);
        estd::tuple<int&, const std::string&, Tracked&> t(a, s, b); VF_REQ(&estd::get<0>(t) == &a && &estd::get<1>(t) == &s && &estd::get<2>(t) == &b, "reference element bound to something else"); const auto& ct = t; VF_REQ(&estd::get<0>(ct) == &a && &estd::get<2>(ct) == &b, "reference element of a const tuple");
        estd::tuple<int&, const std::string&, Tracked&> u(t); VF_REQ(&estd::get<0>(u) == &a && &estd::get<1>(u) == &s && &estd::get<2>(u) == &b, "copied reference element"); int v = (int)c.rng.range(1, 99); estd::get<0>(u) = v; VF_EQ(a, v, "write through a reference element"); estd::get<2>(t) = Tracked(v); VF_EQ(b.get(), v, "write through a reference element");
        auto f = estd::forward_as_tuple(a, std::move(m), s); VF_REQ((void*)&estd::get<0>(f) == &a && (void*)&estd::get<1>(f) == &m && (void*)&estd::get<2>(f) == &s, "forward_as_tuple"); static_assert(std::is_same<decltype(f), estd::tuple<int&, Tracked&&, const std::string&>>::value, "forward_as_tuple");
        VF_LEDGER(2); int calls = 0;
        estd::apply([&](auto&& x, auto&& y, auto&& z) { ++calls; static_assert(std::is_same<decltype(x), int&>::value && std::is_same<decltype(y), Tracked&&>::value && std::is_same<decltype(z), const std::string&>::value, "apply of references"); VF_REQ((void*)&x == &a && (void*)&y == &m && (void*)&z == &s, "apply of references"); }, std::move(f)); VF_EQ(calls, 1, "apply calls"); VF_EV("references"); c.nt(); c.mark(a * 100 + b.get());
    }
    VF_LEDGER(0);
}
namespace { struct Trio { Tracked a; std::string s; Uniq u; Trio(int x, const std::string& y, Uniq z) : a(x), s(y), u(std::move(z)) {} Trio(int x) : a(x) {} Trio() : a(-3) {} }; }
VF_GROUP_W(made, 60)
{
    Ledger::reset(); int v = (int)c.rng.range(1, 99), w = (int)c.rng.range(1, 99), x = (int)c.rng.range(1, 99);
    {
        Trio t = estd::make_from_tuple<Trio>(estd::make_tuple(int(v), Make<std::string>::of(w), Make<Uniq>::of(x))); VF_REQ(t.a.get() == v && num(t.s) == w && num(t.u) == x, "make_from_tuple"); VF_LEDGER(2); Trio o = estd::make_from_tuple<Trio>(estd::make_tuple(int(w))); VF_EQ(o.a.get(), w, "make_from_tuple of one"); VF_LEDGER(3); Trio d = estd::make_from_tuple<Trio>(estd::tuple<>()); VF_EQ(d.a.get(), -3, "make_from_tuple of none");
        estd::pair<Trio, Tracked> p(estd::piecewise_construct_t(), estd::make_tuple(int(x), Make<std::string>::of(v), Make<Uniq>::of(w)), estd::make_tuple(int(w))); VF_REQ(p.first.a.get() == x && num(p.first.s) == v && num(p.first.u) == w && p.second.get() == w, "piecewise construction"); VF_LEDGER(7);
        estd::pair<Tracked, Trio> q(estd::piecewise_construct_t(), estd::make_tuple(int(x)), estd::tuple<>()); VF_REQ(q.first.get() == x && q.second.a.get() == -3, "piecewise construction"); VF_EV("made from"); c.mark(v * 100 + w); c.nt();
    }
    VF_LEDGER(0);
}
