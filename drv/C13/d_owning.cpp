#include "d_fn.h"
using namespace opt;
namespace {
typedef estd::experimental::function<int(int)> F;
struct Slot { int kind = -1, id = 0; long total = 0; };      // -1 empty; 0 Acc 1 Fat 2 lambda with state 3 pointer 4 stateless lambda 5 move-only
struct Own
{
    enum { K = 4 }; Ctx& c; Raw<F> f; Slot s[K]; unsigned changes = 0;
    explicit Own(Ctx& c_) : c(c_), f(K) { for(int i = 0; i < K; ++i) fresh(i, false); }
    ~Own() { for(int i = 0; i < K; ++i) f[i].~F(); }
    template <class C> void put(int i, bool assign, C&& callable) { if(assign) { f[i] = std::forward<C>(callable); VF_EV("assigned target"); } else new(&f[i]) F(std::forward<C>(callable)); }
    // f[i] is raw storage unless assign
    void fresh(int i, bool assign)
    {
        int id = (int)c.rng.range(1, 40), t = (int)c.rng.range(0, 30); ++changes; Slot& x = s[i]; x.id = id; x.total = t;
        switch(c.rng.below(6))
        {
            case 0: x.kind = 0; if(c.rng.coin()) put(i, assign, Acc(id, t)); else { Acc a(id, t); put(i, assign, a); VF_EQ(a.t.get(), t, "an lvalue target was changed"); VF_EV("from lvalue"); } break;
            case 1: x.kind = 1; if(c.rng.coin()) put(i, assign, Fat(id, t)); else { const Fat a(id, t); put(i, assign, a); VF_EQ(a.t.get(), t, "an lvalue target was changed"); VF_EV("from lvalue"); } break;
            case 2: { x.kind = 2; Tracked k(t); std::string text = Make<std::string>::of(id); auto l = [k, text, id](int v) mutable { k = Tracked(k.get() + v); log(id, nullptr, v); return num(text) != id ? -1 : k.get() * 100 + id; }; if(c.rng.coin()) put(i, assign, l); else put(i, assign, std::move(l)); break; }
            case 3: x.kind = 3; x.id = c.rng.coin() ? 3 : 5; if(x.id == 3) put(i, assign, plain3); else put(i, assign, &plain5); break;
            case 4: x.kind = 4; x.id = 77; put(i, assign, [](int v) { log(77, nullptr, v); return v - 77; }); break;
            default: { x.kind = 5; Uniq u(new Tracked(t)); put(i, assign, [u = std::move(u), id](int v) { *u = Tracked(u->get() + v); log(id, nullptr, v); return u->get() * 100 + id; }); VF_EV("move-only capture"); }
        }
        c.op("%d %s kind %d id %d total %d", i, assign ? "=" : ":", x.kind, x.id, t);
    }
    void copied(int i, int j) { s[i] = s[j]; if(s[i].kind == 5) s[i].kind = -1; ++changes; }      // move-only targets cannot be cloned: empty
    void call(int i)
    {
        Slot& x = s[i]; if(x.kind < 0) return; int v = (int)c.rng.range(0, 60) - 30; long want, target = x.id; c.op("call %d with %d", i, v);
        switch(x.kind) { case 3: want = (long)v * x.id; target = 200 + x.id; break; case 4: want = v - 77; break; default: x.total += v; want = x.total * 100 + x.id; }
        int r; switch(c.rng.below(3)) { case 0: r = f[i](v); break; case 1: { estd::detail::function<int(int)> view(f[i]); r = view(v); VF_EV("through a view"); break; } default: { estd::detail::function<int(int)> view; view = f[i]; VF_REQ((bool)view, "view unbound"); r = view(v); } }
        VF_EQ(r, want, "result"); one_call(c, (int)target, nullptr, v);
    }
    void run()
    {
        for(unsigned n = 10 + (unsigned)c.rng.below(40); n > 0; --n)
        {
            int i = (int)c.rng.below(K), j = (int)c.rng.below(K);
            switch(c.rng.below(12))
            {
                case 0: f[i].~F(); fresh(i, false); break;
                case 1: fresh(i, true); break;
                case 2: if(i != j) { c.op("%d: (copy %d)", i, j); f[i].~F(); if(c.rng.coin()) new(&f[i]) F((const F&)f[j]); else new(&f[i]) F(f[j]); copied(i, j); VF_EV("copied"); } break;
                case 3: if(i != j) { c.op("%d: (move %d)", i, j); f[i].~F(); new(&f[i]) F(std::move(f[j])); s[i] = s[j]; s[j].kind = -1; ++changes; VF_EV("moved"); } break;
                case 4: c.op("%d = %d", i, j); if(s[j].kind == 5 && i == j) break; if(c.rng.coin()) f[i] = (const F&)f[j]; else f[i] = f[j]; copied(i, j); VF_EV(i == j ? "self assigned" : "copy assigned"); break;
                case 5: if(i != j) { c.op("%d = move %d", i, j); f[i] = std::move(f[j]); s[i] = s[j]; s[j].kind = -1; ++changes; VF_EV("move assigned"); } break;
                default: call(i);
            }
            long live = 0; for(int k = 0; k < K; ++k) { VF_EQ((bool)f[k], s[k].kind >= 0, "bound"); live += s[k].kind == 0 || s[k].kind == 1 || s[k].kind == 2 || s[k].kind == 5; } VF_LEDGER(live); VF_EQ((long)calls.size(), 0, "targets invoked without a call");
            uint64_t h = 0; for(int k = 0; k < K; ++k) h = mix(h ^ (uint64_t)(s[k].kind * 100000 + s[k].id * 1000 + s[k].total)); c.state(h); c.mark(h);
        }
        if(changes >= 6) c.nt();
    }
};
}
VF_GROUP_W(owning, 150) { calls.clear(); Ledger::reset(); { Own o(c); o.run(); } VF_LEDGER(0); }
// targets held inline, methods bound to objects: copies must not depend on what they were copied from
VF_GROUP_W(inplace, 80)
{
    calls.clear(); Ledger::reset();
    {
        int a = (int)c.rng.range(1, 99), b = (int)c.rng.range(1, 99), v = (int)c.rng.range(0, 40) - 20; Tracked t(a);
        auto i = F::make_inline2([t, b](int x) mutable { t = Tracked(t.get() + x); log(60, nullptr, x); return t.get() * 100 + b; }); typedef decltype(i) I; VF_EQ(i(v), (a + v) * 100 + b, "inline"); one_call(c, 60, nullptr, v); VF_LEDGER(2);
        Raw<I> q(3); new(&q[0]) I(i); new(&q[1]) I((const I&)q[0]); memset((void*)&q[2], 0x5A, sizeof(I)); VF_EQ(q[0](v), (a + 2 * v) * 100 + b, "copied inline function"); one_call(c, 60, nullptr, v); q[0].~I(); memset((void*)&q[0], 0x5A, sizeof(I)); VF_EQ(q[1](1), (a + v + 1) * 100 + b, "copied inline function"); one_call(c, 60, nullptr, 1); new(&q[2]) I(std::move(q[1])); q[1].~I(); memset((void*)&q[1], 0x5A, sizeof(I)); VF_EQ(q[2](2), (a + v + 3) * 100 + b, "moved inline function"); one_call(c, 60, nullptr, 2);
        { estd::detail::function<int(int)> view(q[2]); VF_EQ(view(1), (a + v + 4) * 100 + b, "view of an inline function"); one_call(c, 60, nullptr, 1); } VF_EQ(i(1), (a + v + 1) * 100 + b, "source of the copies"); one_call(c, 60, nullptr, 1); q[2].~I(); VF_LEDGER(2); VF_EV("inline copied");
        Obj o{ a, b }, p{ b, a }; typedef estd::experimental::context_function<decltype(&Obj::sum), &Obj::sum> C; Raw<C> m(4); new(&m[0]) C(&o); new(&m[1]) C(&p); long so = b, sp = a;
        VF_EQ(m[0](v), (so += v) * 100 + a, "method"); one_call(c, a, &o, v); VF_EQ(m[1](v), (sp += v) * 100 + b, "method"); one_call(c, b, &p, v); new(&m[2]) C(m[0]); m[0].~C(); memset((void*)&m[0], 0x5A, sizeof(C)); VF_EQ(m[2](7), (so += 7) * 100 + a, "copied method"); one_call(c, a, &o, 7); new(&m[3]) C((const C&)m[1]); VF_EQ(m[1](1), (sp += 1) * 100 + b, "method"); one_call(c, b, &p, 1); m[1].~C(); memset((void*)&m[1], 0x5A, sizeof(C)); VF_EQ(m[3](2), (sp += 2) * 100 + b, "copied method"); one_call(c, b, &p, 2); VF_EV("method copied"); m[2].~C(); m[3].~C();
        typedef estd::internal::thisify_function<int(int)> T; T::model<Obj, &Obj::diff> dm(&o); T tf(dm); VF_EQ(tf(v), (so -= v) * 100 + a, "thisify"); one_call(c, a + 50, &o, v); estd::detail::v2::function<int(int), estd::detail::impl::function_fnptr1> g(&dm); VF_EQ(g(1), (so -= 1) * 100 + a, "thisify model"); one_call(c, a + 50, &o, 1); g = estd::nullptr_t(); VF_REQ(!g, "cleared");
        estd::internal::impl::method_model<void(), Obj, &Obj::bump> bm(&p); estd::internal::thisify_function<void()> bf(bm); bf(); one_call(c, b, &p, 0); VF_EQ(p.total, sp + 3, "void method"); sp += 3;
        VF_REQ(o.total == so && p.total == sp, "objects"); c.mark((a * 100 + b) * 100 + v); c.nt();
    }
    VF_LEDGER(0);
}
namespace { int ctx3(int v, Obj* o, int k, Tracked t) { log(90, o, v); return v * 1000 + k * 10 + t.get() + o->id; } }
VF_GROUP_W(contexts, 40)
{
    calls.clear(); Ledger::reset();
    {
        int v = (int)c.rng.range(0, 9), k = (int)c.rng.range(0, 9), t = (int)c.rng.range(0, 9); Obj o{ 5, 0 }; typedef estd::internal::contextify_function<int(int), int, Tracked> X; X::model<Obj*, &ctx3> m(&o, int(k), Tracked(t)); estd::detail::function<int(int), estd::detail::impl::function_fnptr1<int(int)>> f(&m);
        VF_EQ(f(v), v * 1000 + k * 10 + t + 5, "contexts"); one_call(c, 90, &o, v); VF_EQ(f(v + 1), (v + 1) * 1000 + k * 10 + t + 5, "contexts"); one_call(c, 90, &o, v + 1); VF_LEDGER(1); VF_EV("contexts"); c.mark(v * 100 + k * 10 + t); c.nt();
        Tracked cap(t); estd::experimental::static_function<int(int)> sf([&](int x) { log(91, nullptr, x); return x + 1; }); VF_EQ(sf(v), v + 1, "static"); one_call(c, 91, nullptr, v);
    }
    VF_LEDGER(0);
}
