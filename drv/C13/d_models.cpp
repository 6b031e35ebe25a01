#include "d_fn.h"
namespace opt { VF_TLS std::vector<Call> calls; }
using namespace opt;
namespace {
template <class S> using F1 = estd::detail::impl::function_fnptr1<S>; template <class S> using F2 = estd::detail::impl::function_fnptr2<S>; template <class S> using FV = estd::detail::impl::function_virtual<S>;
// ---- non-owning function over every kind of model: rebinding, copying, clearing
template <template <class> class Impl> void rebind(Ctx& c)
{
    typedef estd::detail::function<int(int), Impl<int(int)>> F; calls.clear(); Ledger::reset();
    {
        enum { K = 4, M = 7 }; Obj o{ 21, 5 }, p{ 22, 9 }; Acc shared(30, 4); int local = 3; auto cap = [&local, t = Tracked(6)](int v) { local += v; log(40, nullptr, v); return local + t.get(); };
        Boxed<typename F::template model<Acc>> m0{ Acc(10, 1) }; Boxed<typename F::template model<Fat>> m1{ Fat(11, 2) }; Boxed<typename F::template model<decltype(cap)>> m2{ std::move(cap) }; Boxed<typename F::template model<Acc&>> m3(shared); Boxed<typename F::template model<int(&)(int)>> m4(plain3); Boxed<typename Impl<int(int)>::template method_model<Obj, &Obj::sum>> m5(&o); Boxed<typename Impl<int(int)>::template method_model<Obj, &Obj::diff>> m6(&p);
        typename F::model_base* mb[M] = { m0.p, m1.p, m2.p, m3.p, m4.p, m5.p, m6.p }; long total[M] = { 1, 2, 3, 4, 0, 5, 9 };
        Raw<F> f(K); int at[K]; for(int i = 0; i < K; ++i) { new(&f[i]) F(); at[i] = -1; }
        for(unsigned s = 10 + (unsigned)c.rng.below(40); s > 0; --s)
        {
            int i = (int)c.rng.below(K), j = (int)c.rng.below(K), m = (int)c.rng.below(M), v = (int)c.rng.range(0, 40) - 20;
            switch(c.rng.below(9))
            {
                case 0: c.op("%d: model %d", i, m); f[i].~F(); new(&f[i]) F(mb[m]); at[i] = m; break;
                case 1: c.op("%d = model %d", i, m); f[i] = mb[m]; at[i] = m; VF_EV("rebound"); break;
                case 2: c.op("%d = %d", i, j); f[i] = f[j]; at[i] = at[j]; VF_EV("copy assigned"); break;
                case 3: if(i != j) { c.op("%d: (%d)", i, j); f[i].~F(); new(&f[i]) F((const F&)f[j]); at[i] = at[j]; VF_EV("copied"); } break;
                case 4: c.op("clear %d", i); f[i] = estd::nullptr_t(); at[i] = -1; VF_EV("cleared"); break;
                default:
                {
                    if(at[i] < 0) break; int k = at[i]; int r; c.op("call %d (model %d) with %d", i, k, v);
                    if(c.rng.coin()) r = f[i](v); else { auto pass = [](F g, int x) { return g(x); }; r = pass(f[i], v); }
                    long want; switch(k) { case 0: want = (total[0] += v) * 100 + 10; one_call(c, 10, nullptr, v); break; case 1: want = (total[1] += v) * 100 + 11; one_call(c, 11, nullptr, v); break; case 2: total[2] += v; want = total[2] + 6; VF_EQ(local, total[2], "captured variable"); one_call(c, 40, nullptr, v); break;
                        case 3: want = (total[3] += v) * 100 + 30; VF_EQ(shared.t.get(), total[3], "referenced functor"); one_call(c, 30, nullptr, v); break; case 4: want = v * 3; one_call(c, 203, nullptr, v); break; case 5: want = (total[5] += v) * 100 + 21; VF_EQ(o.total, total[5], "object of a method"); one_call(c, 21, &o, v); break; default: want = (total[6] -= v) * 100 + 22; VF_EQ(p.total, total[6], "object of a method"); one_call(c, 72, &p, v); }
                    VF_EQ(r, want, "result");
                }
            }
            VF_EQ((long)calls.size(), 0, "targets invoked without a call"); for(int k = 0; k < K; ++k) { VF_EQ((bool)f[k], at[k] >= 0, "bound"); VF_REQ(f[k].getm() == (at[k] < 0 ? nullptr : mb[at[k]]), "bound to another model"); } uint64_t h = 0; for(int k = 0; k < K; ++k) h = h * 9 + (uint64_t)(at[k] + 1); c.state(h); c.mark(h * 64 + (uint64_t)(v + 20)); VF_LEDGER(5);
        }
        c.nt();
    }
    VF_LEDGER(0);
}
// ---- argument and result kinds
template <template <class> class Impl> void kinds(Ctx& c)
{
    calls.clear(); Ledger::reset(); int a = (int)c.rng.range(1, 99), b = (int)c.rng.range(1, 99);
    {
        { typedef estd::detail::function<void(int&), Impl<void(int&)>> F; auto m = F::make_model([b](int& x) { log(1, &x, x); x += b; }); F f(&m); int x = a; f(x); VF_EQ(x, a + b, "argument by reference"); one_call(c, 1, &x, a); }
        { typedef estd::detail::function<int&(int*, bool), Impl<int&(int*, bool)>> F; int y = b; auto m = F::make_model([&y](int* p, bool w) -> int& { log(2, p, w); return w ? *p : y; }); F f(&m); int x = a; VF_REQ(&f(&x, true) == &x, "result by reference"); one_call(c, 2, &x, 1); VF_REQ(&f(&x, false) == &y, "result by reference"); one_call(c, 2, &x, 0); VF_EV("reference result"); }
        { typedef estd::detail::function<int(Tracked, const Tracked&), Impl<int(Tracked, const Tracked&)>> F; auto m = F::make_model([](Tracked x, const Tracked& y) { log(3, &y, x.get()); return x.get() * 1000 + y.get(); }); F f(&m); Tracked x(a), y(b); VF_EQ(f(x, y), a * 1000 + b, "arguments"); one_call(c, 3, &y, a); VF_EQ(f(Tracked(b), y), b * 1000 + b, "arguments"); one_call(c, 3, &y, b); VF_REQ(x.get() == a && y.get() == b, "arguments changed"); VF_LEDGER(2); }
        { typedef estd::detail::function<Uniq(Uniq, Tracked&&), Impl<Uniq(Uniq, Tracked&&)>> F; auto m = F::make_model([](Uniq u, Tracked&& t) { log(4, u.get(), t.get()); *u = Tracked(u->get() + t.get()); return u; }); F f(&m); Uniq u(new Tracked(a)); Tracked* raw = u.get(); Uniq r = f(std::move(u), Tracked(b)); VF_REQ(r.get() == raw && !u, "move-only argument and result"); VF_EQ(r->get(), a + b, "move-only result"); one_call(c, 4, raw, b); VF_LEDGER(1); VF_EV("move-only"); }
        { typedef estd::detail::function<std::string(const std::string&, char, double, long long), Impl<std::string(const std::string&, char, double, long long)>> F; auto m = F::make_model([](const std::string& s, char ch, double d, long long l) { log(5, &s, (long)l); return s + ch + std::to_string((int)d); }); F f(&m); std::string s = Make<std::string>::of(a); VF_REQ(f(s, 'q', b, -a) == s + 'q' + std::to_string(b), "several arguments"); one_call(c, 5, &s, -a); }
        { typedef estd::detail::function<void(), Impl<void()>> F; Tracked t(a); auto m = F::make_model([t] { log(6, nullptr, t.get()); }); F f(&m), g(f); f(); one_call(c, 6, nullptr, a); g(); one_call(c, 6, nullptr, a); VF_LEDGER(2); auto copy = m; F h(&copy); h(); one_call(c, 6, nullptr, a); VF_LEDGER(3); auto moved = std::move(copy); F i(&moved); i(); one_call(c, 6, nullptr, a); VF_EV("model copied"); }
        { typedef estd::detail::function<Tracked(int), Impl<Tracked(int)>> F; Uniq u(new Tracked(b)); auto m = F::make_model([u = std::move(u)](int x) { log(7, u.get(), x); return Tracked(u->get() + x); }); F f(&m); Tracked r = f(a); VF_EQ(r.get(), a + b, "result by value"); calls.clear(); VF_LEDGER(2); }
        c.mark(a * 100 + b); c.nt();
    }
    VF_LEDGER(0);
}
}
VF_REG("rebind fnptr1", 60, rebind<F1>); VF_REG("rebind fnptr2", 60, rebind<F2>); VF_REG("rebind virtual", 60, rebind<FV>);
VF_REG("kinds fnptr1", 30, kinds<F1>); VF_REG("kinds fnptr2", 30, kinds<F2>); VF_REG("kinds virtual", 30, kinds<FV>);
// the _opt flavour releases what was captured right after its single invocation
VF_GROUP_W(one_shot, 30)
{
    calls.clear(); Ledger::reset(); int a = (int)c.rng.range(1, 99), b = (int)c.rng.range(1, 99);
    { typedef estd::detail::v2::function<int(int), estd::detail::impl::function_fnptr2_opt> F; Tracked t(a); auto l = [t](int v) { log(8, nullptr, v); return t.get() + v; }; typedef F::model<decltype(l)> M; Raw<M> m(1); new(&m[0]) M(std::move(l)); VF_LEDGER(3); { F f(&m[0]); VF_EQ(f(b), a + b, "result"); one_call(c, 8, nullptr, b); } VF_LEDGER(2); }
    { typedef estd::detail::v2::function<void(), estd::detail::impl::function_fnptr2_opt> F; Tracked t(a); auto l = [t] { log(9, nullptr, t.get()); }; typedef F::model<decltype(l)> M; Raw<M> m(1); new(&m[0]) M(std::move(l)); VF_LEDGER(3); { F f(&m[0]); f(); one_call(c, 9, nullptr, a); } VF_LEDGER(2); VF_EV("one shot"); }
    VF_LEDGER(0); c.mark(a * 100 + b); c.nt();
}
