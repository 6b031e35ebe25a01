// Without exceptions a wrong access ends the program; it never yields an object that is not there.
#include "vf.h"
#include "values.h"
#include <csignal>
#include <csetjmp>
#include <estd/optional.h>
#include <estd/expected.h>
#include <estd/variant.h>
#include <estd/string.h>
using namespace vf;
namespace {
#if __cpp_exceptions
#error built with exceptions
#endif
sigjmp_buf back; volatile sig_atomic_t aborts;
void on_abort(int) { aborts = aborts + 1; siglongjmp(back, 1); }
void arm() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, nullptr); }
// whether f ran to its end (f must not own anything)
template <class F> bool completes(F f)
{
    volatile bool done = false; int a = aborts; arm();
    if(!sigsetjmp(back, 1)) { f(); done = true; }
    signal(SIGABRT, SIG_DFL);
    return done && aborts == a;
}
template <class T> T mk(int v) { return (T)v; }
template <> Tracked mk<Tracked>(int v) { return Tracked(v); }
inline long nv(int v) { return v; } inline long nv(long long v) { return (long)v; } inline long nv(unsigned char v) { return v; } inline long nv(const Tracked& t) { return t.get(); } inline long nv(const char* p) { return (long)(uintptr_t)p; } inline long nv(estd::errc e) { return (long)(int)e; }
#define ACC(expr, ok, want, what) do { volatile long vf_v = 0; bool vf_ok = completes([&] { vf_v = nv(expr); }); if(ok) { VF_REQ(vf_ok, "%s ended the program although the value is there", what); VF_REQ(vf_v == (long)(want), "%s gave %ld, expected %ld", what, (long)vf_v, (long)(want)); VF_EV("accessed"); } else { VF_REQ(!vf_ok, "%s of what is not there gave %ld", what, (long)vf_v); VF_EV(what); c.nt(); } } while(0)

template <class O, class T> void opt_run(Ctx& c)
{
    Ledger::reset();
    {
        O o; const O& k = o; bool has = false; int val = 0;
        for(unsigned n = 5 + c.rng.below(20); n--;)
        {
            int v = (int)c.rng.range(1, 100);
            switch(c.rng.below(3)) { case 0: c.op("= %d", v); o = mk<T>(v); has = true; val = v; break; case 1: c.op("reset"); if(c.rng.coin()) o.reset(); else o = estd::nullopt; has = false; break;
                default: { c.op("from another"); O p; bool h = c.rng.coin(); if(h) p = mk<T>(v); o = p; has = h; val = v; } }
            VF_REQ(o.has_value() == has && (bool)k == has, "has_value");
            ACC(o.value(), has, val, "optional value()"); ACC(k.value(), has, val, "const optional value()");
            { T d = mk<T>(-1); VF_EQ(nv(k.value_or(d)), has ? nv(mk<T>(val)) : nv(d), "value_or"); }
            c.state(val * 2 + has);
        }
    }
    VF_REQ(Ledger::live == 0, "%ld objects left", (long)Ledger::live);
}
VF_REG("optional<int>", 60, opt_run<estd::optional<int>, int>);
VF_REG("optional<Tracked>", 60, opt_run<estd::optional<Tracked>, Tracked>);
VF_REG("layer1::optional<int,-7>", 60, opt_run<estd::layer1::optional<int, -7>, int>);

template <class T, class E> void exp_run(Ctx& c)
{
    Ledger::reset();
    {
        typedef estd::expected<T, E> X; X x{mk<T>(3)}; const X& k = x; bool has = true; int val = 3;
        for(unsigned n = 5 + c.rng.below(20); n--;)
        {
            int v = (int)c.rng.range(1, 100);
            switch(c.rng.below(3)) { case 0: c.op("= %d", v); x = mk<T>(v); has = true; val = v; break; case 1: c.op("= unexpected(%d)", v); x = estd::unexpected<E>(mk<E>(v)); has = false; val = v; break;
                default: { bool h = c.rng.coin(); c.op("= expected(%d, %d)", h, v); X y{mk<T>(v)}; if(!h) y = estd::unexpected<E>(mk<E>(v)); if(c.rng.coin()) x = y; else x = std::move(y); has = h; val = v; } }
            VF_REQ(x.has_value() == has && (bool)k == has, "has_value");
            ACC(x.value(), has, val, "expected value()"); ACC(k.value(), has, val, "const expected value()");
            if(!has) VF_EQ(nv(k.error()), (long)val, "error");
            c.state(val * 2 + has);
        }
    }
    VF_REQ(Ledger::live == 0, "%ld objects left", (long)Ledger::live);
}
VF_REG("expected<int,errc>", 60, exp_run<int, estd::errc>);
VF_REG("expected<Tracked,int>", 60, exp_run<Tracked, int>);
VF_REG("expected<int,Tracked>", 60, exp_run<int, Tracked>);

template <class A, class B, class C> void var_run(Ctx& c)
{
    Ledger::reset();
    {
        typedef estd::variant<A, B, C> V; V o(estd::in_place_index_t<0>{}, mk<A>(1)); const V& k = o; int idx = 0, val = 1;
        for(unsigned n = 5 + c.rng.below(20); n--;)
        {
            int v = (int)c.rng.range(1, 100);
            switch(c.rng.below(4)) { case 0: c.op("emplace<0>(%d)", v); o.template emplace<0>(mk<A>(v)); idx = 0; val = v; break; case 1: c.op("emplace<1>(%d)", v); o.template emplace<1>(mk<B>(v)); idx = 1; val = v; break; case 2: c.op("emplace<2>(%d)", v); o.template emplace<2>(mk<C>(v)); idx = 2; val = v; break;
                default: { c.op("= variant of %d", v); V p(estd::in_place_index_t<2>{}, mk<C>(v)); if(c.rng.coin()) { p.template emplace<1>(mk<B>(v)); idx = 1; } else idx = 2; o = p; val = v; } }
            VF_EQ((int)k.index(), idx, "index");
            ACC(estd::get<0>(o), idx == 0, val, "get<0>"); ACC(estd::get<0>(k), idx == 0, val, "get<0> of const");
            ACC(estd::get<1>(o), idx == 1, val, "get<1>"); ACC(estd::get<1>(k), idx == 1, val, "get<1> of const");
            ACC(estd::get<2>(o), idx == 2, val, "get<2>"); ACC(estd::get<2>(k), idx == 2, val, "get<2> of const");
            ACC(estd::get<A>(o), idx == 0, val, "get<T>"); ACC(estd::get<B>(k), idx == 1, val, "get<T> of const"); ACC(estd::get<C>(o), idx == 2, val, "get<T> of the last");
            VF_REQ((estd::get_if<0>(&o) != nullptr) == (idx == 0) && (estd::get_if<1>(&o) != nullptr) == (idx == 1) && (estd::get_if<C>(&k) != nullptr) == (idx == 2), "get_if");
            c.state(val * 3 + idx);
        }
    }
    VF_REQ(Ledger::live == 0, "%ld objects left", (long)Ledger::live);
}
VF_REG("variant<int,long long,unsigned char>", 60, var_run<int, long long, unsigned char>);
VF_REG("variant<Tracked,int,unsigned char>", 60, var_run<Tracked, int, unsigned char>);
VF_REG("variant<int,unsigned char,Tracked>", 60, var_run<int, unsigned char, Tracked>);
}
