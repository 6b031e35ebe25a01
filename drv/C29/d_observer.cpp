#include "vf.h"
#include <estd/vector.h>
#include <estd/exp/observer.h>
using namespace vf;
namespace {
namespace x = estd::experimental;
struct Ev { int kind, id, payload, ctx; bool operator==(const Ev& o) const { return kind == o.kind && id == o.id && payload == o.payload && ctx == o.ctx; } };
VF_TLS std::vector<Ev> seen, want;
std::string dump(const std::vector<Ev>& v) { std::string s; for(auto& e : v) { char b[64]; snprintf(b, sizeof b, "(%d by %d: %d/%d)", e.kind, e.id, e.payload, e.ctx); s += b; } return s; }
struct A { int d; explicit A(int v) : d(v) {} }; struct B { int d; long pad; explicit B(int v) : d(v), pad(~v) {} }; struct Cx { int d; explicit Cx(int v) : d(v) {} };
void log(int kind, int id, int payload, int ctx) { seen.push_back(Ev{ kind, id, payload, ctx }); }
// interested in A, B and ints; nothing else
struct Full { int id; Tracked t; Full(int i = 77) : id(i), t(i) {} void on_notify(const A& a) { log(1, id, a.d, t.get() == id ? 0 : -1); } void on_notify(const B& b) { log(2, id, b.pad == ~b.d ? b.d : -999, 0); } void on_notify(int v) { log(3, id, v, 0); } };
// interested in A only
struct OnlyA { int id; char room[12]; OnlyA(int i = 78) : id(i) { memset(room, i, sizeof room); } void on_notify(A a) { bool ok = true; for(char ch : room) ok &= ch == (char)id; log(1, id, a.d, ok ? 0 : -1); } };
// interested in A with an int context and in B without
struct Ctxt { int id; Ctxt(int i = 79) : id(i) {} void on_notify(const A& a, int& k) { log(4, id, a.d, k); k += id; } void on_notify(const B& b) { log(2, id, b.d, 0); } };
struct Count { int id, n; Count(int i = 80) : id(i), n(0) {} void on_notify(const A&) { log(5, id, ++n, 0); } };
template <int I> struct Still { static void on_notify(const A& a) { log(1, I, a.d, 0); } static void on_notify(const B& b) { log(2, I, b.d, 0); } };
template <int I> struct StillCx { static void on_notify(const A& a, int& k) { log(4, I, a.d, k); k += I; } };
template <int I> struct StillB { static void on_notify(const B& b) { log(2, I, b.d, 0); } };
template <int I> struct Odd { int id; Odd(int i = I) : id(i) {} void on_notify(const Cx& v) { log(6, id, v.d, I); } };
// what an observer of each class should report
void expect(Full& o, const A& a, int*) { want.push_back(Ev{ 1, o.id, a.d, 0 }); } void expect(Full& o, const B& b, int*) { want.push_back(Ev{ 2, o.id, b.d, 0 }); } void expect(Full& o, int v, int*) { want.push_back(Ev{ 3, o.id, v, 0 }); } void expect(Full&, const Cx&, int*) { VF_EV("uninterested observer"); }
void expect(OnlyA& o, const A& a, int*) { want.push_back(Ev{ 1, o.id, a.d, 0 }); } template <class T> void expect(OnlyA&, const T&, int*) { VF_EV("uninterested observer"); }
void expect(Ctxt& o, const A& a, int* k) { if(k) { want.push_back(Ev{ 4, o.id, a.d, *k }); *k += o.id; VF_EV("context passed"); } } void expect(Ctxt& o, const B& b, int*) { want.push_back(Ev{ 2, o.id, b.d, 0 }); } template <class T> void expect(Ctxt&, const T&, int*) {}
template <int I> void expect(Odd<I>& o, const Cx& v, int*) { want.push_back(Ev{ 6, o.id, v.d, I }); } template <int I, class T> void expect(Odd<I>&, const T&, int*) {}
void expect(Count& o, const A&, int*) { want.push_back(Ev{ 5, o.id, ++o.n, 0 }); } template <class T> void expect(Count&, const T&, int*) {}
template <int I> void expect(Still<I>&, const A& a, int*) { want.push_back(Ev{ 1, I, a.d, 0 }); } template <int I> void expect(Still<I>&, const B& b, int*) { want.push_back(Ev{ 2, I, b.d, 0 }); } template <int I, class T> void expect(Still<I>&, const T&, int*) {}
template <int I> void expect(StillB<I>&, const B& b, int*) { want.push_back(Ev{ 2, I, b.d, 0 }); } template <int I, class T> void expect(StillB<I>&, const T&, int*) {}
template <int I> void expect(StillCx<I>&, const A& a, int* k) { if(k) { want.push_back(Ev{ 4, I, a.d, *k }); *k += I; VF_EV("context passed"); } } template <int I, class T> void expect(StillCx<I>&, const T&, int*) {}
template <class S, class E, class... M> void fire(Ctx& c, S& s, const E& e, bool with, M&... model)
{
    int k = (int)c.rng.below(100), r = k; seen.clear(); want.clear();
    { int dummy[] = { 0, (expect(model, e, with ? &r : nullptr), 0)... }; (void)dummy; }
    if(with) s.notify(e, k); else s.notify(e);
    VF_REQ(seen == want, "notified %s, expected %s", dump(seen).c_str(), dump(want).c_str()); if(with) VF_EQ(k, r, "context after notification"); VF_EV(with ? "notified with context" : "notified"); for(auto& v : seen) c.mark(mix((uint64_t)v.kind * 1000003u + (uint64_t)v.id * 101u) ^ (uint64_t)v.payload); c.state(seen.size() * 64 + (uint64_t)with); if(seen.size() > 1) c.nt();
}
template <class S, class... M> void history(Ctx& c, S& s, M&... model)
{
    for(unsigned n = 4 + (unsigned)c.rng.below(10); n > 0; --n)
    {
        int v = (int)c.rng.range(-1000, 1000); bool with = c.rng.coin();
        switch(c.rng.below(3)) { case 0: c.op("A %d%s", v, with ? " with context" : ""); fire(c, s, A(v), with, model...); break; case 1: c.op("B %d%s", v, with ? " with context" : ""); fire(c, s, B(v), with, model...); break; default: c.op("C %d%s", v, with ? " with context" : ""); fire(c, s, Cx(v), with, model...); break; }
    }
}
}
VF_GROUP_W(referenced, 100)
{
    int i = (int)c.rng.below(50); Full a(i), a2(i + 100); OnlyA b(i + 1); Ctxt k(i + 2); Full ma(i), ma2(i + 100); OnlyA mb(i + 1); Ctxt mk(i + 2); c.op("referenced observers");
    auto s = x::layer0::make_subject(a, b, k, a2); history(c, s, ma, mb, mk, ma2); Count n(i), mn(i); auto s2 = x::layer0::make_subject(n, a); history(c, s2, mn, ma); VF_EQ(n.n, mn.n, "state of the referenced observer");
    a.id = ma.id = i + 40; a.t = Tracked(i + 40); history(c, s2, mn, ma); VF_EV("referenced observer changed"); auto s3 = x::layer0::make_subject(a, a); history(c, s3, ma, ma); VF_EV("same observer twice");
}
VF_GROUP_W(held, 100)
{
    Ledger::reset();
    {
        int i = (int)c.rng.below(50); Full r(i + 9), mr(i + 9); Full m1(i); OnlyA m2(i + 1); Ctxt m3(i + 2); Odd<5> m4(i + 3); c.op("held observers");
        auto s = x::layer0::make_subject(Full(i), r, OnlyA(i + 1), Ctxt(i + 2), Odd<5>(i + 3)); history(c, s, m1, mr, m2, m3, m4); VF_LEDGER(4);
        auto s2 = s; history(c, s2, m1, mr, m2, m3, m4); VF_LEDGER(5); VF_EV("subject copied"); Count mn(i); auto s4 = x::layer0::make_subject(Count(i), Odd<7>(i)); Odd<7> m7(i); history(c, s4, mn, m7); auto s5 = s4; Count other(mn); history(c, s5, other, m7); history(c, s4, mn, m7);
        x::layer0::subject<Full> d; Full md; history(c, d, md); x::layer0::subject<> none; history(c, none);
    }
    VF_LEDGER(0);
}
VF_GROUP_W(stateless, 60)
{
    Still<1> a; Still<2> b; StillCx<3> k; StillB<4> e; c.op("stateless observers"); { x::internal::stateless_subject<Still<1>, StillCx<3>, Still<2>, StillB<4> > s; history(c, s, a, k, b, e); } { x::internal::stateless_subject<StillB<4>, Still<2>, Still<2> > s; history(c, s, e, b, b); } { x::internal::stateless_subject<> s; history(c, s); x::void_subject v; history(c, v); VF_EV("nobody listening"); }
}
VF_GROUP_W(proxied, 60)
{
    int i = (int)c.rng.below(50); Full o(i + 1), mo(i + 1), held(i + 2), mheld(i + 2); c.op("proxied observers");
    typedef x::layer0::subject<Full&> S; S s(held); x::observer_proxy<S, A> p(s); x::observer_proxy<S, A, B> p2(s); x::observer_abstract<A>& va = p; x::observer_abstract<A, B>& vb = p2;
    for(int n = 0; n < 6; ++n)
    {
        int v = (int)c.rng.range(-99, 99); seen.clear(); want.clear();
        switch(c.rng.below(4)) { case 0: va.on_notify(A(v)); expect(mheld, A(v), nullptr); break; case 1: vb.on_notify(A(v)); expect(mheld, A(v), nullptr); break; case 2: vb.on_notify(B(v)); expect(mheld, B(v), nullptr); break;
            default: { auto chain = x::layer0::make_subject(vb, o, va); chain.notify(A(v)); expect(mheld, A(v), nullptr); expect(mo, A(v), nullptr); expect(mheld, A(v), nullptr); } }
        VF_REQ(seen == want, "notified %s, expected %s", dump(seen).c_str(), dump(want).c_str()); VF_EV("proxied"); c.mark((uint64_t)(v + 1000)); c.nt();
    }
    { auto q = x::make_proxy_2<x::layer0::subject<Full>, x::observer_abstract<A, B> >(); Full mq; auto t = x::layer0::make_subject(q, o); int v = (int)c.rng.below(99); seen.clear(); want.clear(); t.notify(B(v)); expect(mq, B(v), nullptr); expect(mo, B(v), nullptr); VF_REQ(seen == want, "notified %s, expected %s", dump(seen).c_str(), dump(want).c_str()); auto q1 = x::make_proxy<x::layer0::subject<Full>, x::observer_abstract<A> >(); seen.clear(); want.clear(); q1.on_notify(A(v)); expect(mq, A(v), nullptr); VF_REQ(seen == want, "proxy"); }
}
