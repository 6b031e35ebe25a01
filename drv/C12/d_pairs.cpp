#include "d_tuple.h"
using namespace opt;
namespace {
template <class A, class B, bool COPY, bool ORDER> void pairs(Ctx& c)
{
    typedef estd::pair<A, B> P; Ledger::reset();
    {
        long per = counted<A>() + counted<B>(); enum { K = 3 }; Raw<P> cells(K); int a[K], b[K]; const unsigned R = c.rng.coin() ? 4 : 90;
        auto rnd = [&] { return (int)c.rng.range(1, R); }; auto ca = [](int v) { return num(Make<A>::of(v)); }; auto cb = [](int v) { return num(Make<B>::of(v)); };
        for(int i = 0; i < K; ++i) { int x = rnd(), y = rnd(); new(&cells[i]) P(Make<A>::of(x), Make<B>::of(y)); a[i] = ca(x); b[i] = cb(y); }
        auto check = [&] { for(int i = 0; i < K; ++i) { P& p = cells[i]; const P& cp = p; VF_REQ(num(p.first) == a[i] && num(p.second) == b[i], "pair %d is (%d,%d), expected (%d,%d)", i, num(p.first), num(p.second), a[i], b[i]); VF_REQ(&estd::get<0>(p) == &p.first && &estd::get<1>(p) == &p.second && &estd::get<0>(cp) == &p.first && &estd::get<1>(cp) == &p.second, "get of a pair"); }
            static_assert(estd::tuple_size<P>::value == 2 && std::is_same<typename estd::tuple_element<0, P>::type, A>::value && std::is_same<typename estd::tuple_element<1, P>::type, B>::value, "pair as tuple"); VF_LEDGER(per * K); };
        check();
        for(int s = 0; s < 14; ++s)
        {
            int i = (int)c.rng.below(K), j = (int)c.rng.below(K), x = rnd(), y = rnd(); P& p = cells[i];
            switch(c.rng.below(11))
            {
                case 0: c.op("%d: (%d,%d)", i, x, y); p.~P(); new(&p) P(Make<A>::of(x), Make<B>::of(y)); a[i] = ca(x); b[i] = cb(y); VF_EV("pair from values"); break;
                case 1: if constexpr(COPY) { const A u = Make<A>::of(x); const B v = Make<B>::of(y); p.~P(); new(&p) P(u, v); a[i] = ca(x); b[i] = cb(y); VF_REQ(num(u) == a[i] && num(v) == b[i], "arguments changed"); VF_EV("pair from lvalues"); } break;
                case 2: if constexpr(COPY) { A u = Make<A>::of(x); B v = Make<B>::of(y); p.~P(); new(&p) P(u, v); a[i] = ca(x); b[i] = cb(y); VF_REQ(num(u) == a[i] && num(v) == b[i], "arguments changed"); VF_EV("pair from lvalues"); } break;
                case 3: if constexpr(COPY) if(i != j) { c.op("%d: (copy %d)", i, j); p.~P(); new(&p) P((const P&)cells[j]); a[i] = a[j]; b[i] = b[j]; VF_EV("pair copied"); } break;
                case 4: if(i != j) { c.op("%d: (move %d)", i, j); p.~P(); new(&p) P(std::move(cells[j])); a[i] = a[j]; b[i] = b[j]; P& q = cells[j]; q.~P(); new(&q) P(Make<A>::of(x), Make<B>::of(y)); a[j] = ca(x); b[j] = cb(y); VF_EV("pair moved"); } break;
                case 5: if constexpr(COPY) { c.op("%d = %d", i, j); p = (const P&)cells[j]; a[i] = a[j]; b[i] = b[j]; VF_EV("pair assigned"); } break;
                case 6: if(i != j) { c.op("%d = move %d", i, j); p = std::move(cells[j]); a[i] = a[j]; b[i] = b[j]; P& q = cells[j]; q.~P(); new(&q) P(Make<A>::of(x), Make<B>::of(y)); a[j] = ca(x); b[j] = cb(y); VF_EV("pair move assigned"); } break;
                case 7: c.op("swap %d %d", i, j); if(i == j && !COPY) break; if(c.rng.coin()) p.swap(cells[j]); else { using estd::swap; swap(p, cells[j]); } std::swap(a[i], a[j]); std::swap(b[i], b[j]); VF_EV("pair swapped"); break;
                case 8: { p.~P(); new(&p) P(estd::make_pair(Make<A>::of(x), Make<B>::of(y))); a[i] = ca(x); b[i] = cb(y); VF_EV("pair made"); break; }
                case 9: { int calls = 0; estd::apply([&](const A& u, const B& v) { ++calls; VF_REQ(&u == &p.first && &v == &p.second, "apply of a pair"); }, p); VF_EQ(calls, 1, "apply calls"); VF_EV("pair applied"); break; }
                default: if(c.rng.coin()) { estd::get<0>(p) = Make<A>::of(x); a[i] = ca(x); } else { p.second = Make<B>::of(y); b[i] = cb(y); }
            }
            check(); { uint64_t h = 0; for(int k = 0; k < K; ++k) h = mix(h ^ (uint64_t)(a[k] * 1000 + b[k])); c.mark(h); c.state(h); }
            if constexpr(ORDER) for(int k = 0; k < K; ++k) for(int l = 0; l < K; ++l)
            {
                const P& x2 = cells[k], &y2 = cells[l]; auto m = std::make_pair(a[k], b[k]), n = std::make_pair(a[l], b[l]);
                VF_EQ(x2 == y2, m == n, "=="); VF_EQ(x2 != y2, m != n, "!="); VF_EQ(x2 < y2, m < n, "<"); VF_EQ(x2 > y2, m > n, ">"); VF_EV(m == n ? "pairs equal" : m.first == n.first ? "pairs differ second" : "pairs differ first");
            }
        }
        for(int i = 0; i < K; ++i) cells[i].~P();
    }
    VF_LEDGER(0); c.nt();
}
}
VF_REG("pair<int,int>", 40, (pairs<int, int, true, true>));
VF_REG("pair<Tracked,double>", 60, (pairs<Tracked, double, true, true>));
VF_REG("pair<Wide,Tracked>", 60, (pairs<Wide, Tracked, true, true>));
VF_REG("pair<Uniq,Tracked>", 60, (pairs<Uniq, Tracked, false, false>));
VF_REG("pair<std::string,std::vector<int>>", 60, (pairs<std::string, std::vector<int>, true, false>));
// converting construction
VF_GROUP_W(converting_pairs, 30)
{
    Ledger::reset(); { int x = (int)c.rng.range(1, 99), y = (int)c.rng.range(1, 99); estd::pair<double, Tracked> p(x, y); VF_REQ(p.first == x && p.second.get() == y, "pair from other types"); long cp = Ledger::copies; estd::pair<Tracked, Uniq> q(Tracked(x), Make<Uniq>::of(y)); VF_REQ(q.first.get() == x && num(q.second) == y, "pair from rvalues"); VF_EQ(Ledger::copies - cp, 0, "copies made of rvalues"); VF_LEDGER(3); c.mark(x * 100 + y); c.nt(); }
    VF_LEDGER(0);
}
