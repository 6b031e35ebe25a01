#pragma once
#include "vf.h"
#include "values.h"
#include <estd/system_error.h>
#include <estd/expected.h>
using namespace vf;
namespace opt {
inline int num(estd::monostate) { return 0; }
inline int num(estd::errc e) { return (int)e; }
template <> struct Make<estd::errc> { static estd::errc of(int v) { return (estd::errc)v; } };
template <> struct Make<void> { static estd::monostate of(int) { return {}; } };
typedef std::unique_ptr<Tracked> Uniq;
inline int num(const Uniq& u) { return u ? u->get() : -77; }
template <> struct Make<Uniq> { static Uniq of(int v) { return Uniq(new Tracked(v)); } };
inline int num(const char* p) { return p ? (int)(p - (const char*)0x1000) : 0; }
template <> struct Make<const char*> { static const char* of(int v) { return (const char*)0x1000 + v; } };
template <class T> constexpr bool counted() { return tracked<T>() || std::is_same<T, Uniq>::value; }
enum { COPY = 1, DEFAULT = 2, FROMINT = 4, ERRINT = 8 };  // FROMINT: value (ERRINT: error) can be made and assigned from an int

template <unsigned F, class T, class E> struct EHist
{
    typedef estd::expected<T, E> X; typedef typename std::conditional<std::is_void<T>::value, estd::monostate, T>::type V; enum { K = 3, VOID = std::is_void<T>::value };
    Ctx& c; Raw<X> cells; bool has[K]; int val[K]; bool fuzzy[K]; unsigned switches = 0;
    explicit EHist(Ctx& c_) : c(c_), cells(K) { for(int i = 0; i < K; ++i) { new(&cells[i]) X(estd::unexpect_t(), Make<E>::of(i + 1)); has[i] = false; val[i] = cane(i + 1); fuzzy[i] = false; } }
    ~EHist() { for(int i = 0; i < K; ++i) cells[i].~X(); }
    static int canv(int v) { return num(Make<T>::of(v)); }
    static int cane(int v) { return num(Make<E>::of(v)); }
    void set(int i, bool h, int v, bool f = false) { if(has[i] != h) ++switches; has[i] = h; val[i] = v; fuzzy[i] = f; }
    template <class ...A> void rebuild(int i, A&&... a) { cells[i].~X(); memset((void*)&cells[i], (int)c.rng.below(256), sizeof(X)); new(&cells[i]) X(std::forward<A>(a)...); }
    static bool empty(const Uniq& u) { return !u; } template <class U> static bool empty(const U&) { return false; }
    static bool same(X& x, const X& cx, const void* p) { if constexpr(std::is_copy_constructible<E>::value) return p == (const void*)&x.value() && p == (const void*)&cx.value(); else return true; }
    void verify()
    {
        long l = 0;
        for(int i = 0; i < K; ++i)
        {
            X& x = cells[i]; const X& cx = x;
            VF_EQ((bool)cx.has_value(), has[i], "has_value"); VF_EQ((bool)cx, has[i], "operator bool");
            if(has[i])
            {
                const void* p = &*cx; VF_REQ(p == (const void*)&*x && same(x, cx, p), "accessors of the value disagree"); if constexpr(!VOID) VF_REQ(p == (const void*)cx.operator->(), "operator->");
                VF_REQ((uintptr_t)p % alignof(V) == 0 && (const char*)p >= (const char*)&x && (const char*)p + sizeof(V) <= (const char*)(&x + 1), "value misplaced");
                if(!fuzzy[i]) { VF_EQ(num(*cx), val[i], "value"); VF_EV("value read"); }
                if(counted<V>() && !empty(*cx)) ++l;
            }
            else
            {
                const void* p = &cx.error(); VF_REQ(p == (const void*)&x.error(), "accessors of the error disagree"); VF_REQ((uintptr_t)p % alignof(E) == 0 && (const char*)p >= (const char*)&x && (const char*)p + sizeof(E) <= (const char*)(&x + 1), "error misplaced");
                if(!fuzzy[i]) { VF_EQ(num(cx.error()), val[i], "error"); VF_EV("error read"); }
                if(counted<E>() && !empty(cx.error())) ++l;
            }
        }
        VF_LEDGER(l);
        int i = (int)c.rng.below(K); X& x = cells[i]; const X& cx = x;
        if constexpr(std::is_copy_constructible<E>::value) { bool threw = false; try { if(c.rng.coin()) (void)x.value(); else (void)cx.value(); } catch(const estd::bad_expected_access<E>& e) { threw = true; if(!fuzzy[i]) VF_EQ(num(e.error()), val[i], "error in the exception"); VF_EV("refused"); } VF_EQ(threw, !has[i], "value() without a value throws"); 
            if(!has[i]) { threw = false; try { (void)x.value(); } catch(const estd::bad_expected_access<void>&) { threw = true; } VF_REQ(threw, "bad_expected_access is not a bad_expected_access<void>"); threw = false; try { (void)cx.value(); } catch(const std::exception&) { threw = true; } VF_REQ(threw, "bad_expected_access is not a std::exception"); } }
        if constexpr(std::is_copy_constructible<T>::value && !VOID) if(!fuzzy[i]) { int v = (int)c.rng.range(1, 99); const V d = Make<T>::of(v); VF_EQ(num(cx.value_or(d)), has[i] ? val[i] : num(d), "value_or"); VF_EV("value_or"); }
        VF_LEDGER(l);
    }
    void step()
    {
        int i = (int)c.rng.below(K), j = (int)c.rng.below(K), v = (int)c.rng.range(1, 99); X& x = cells[i];
        switch(c.rng.below(22))
        {
            case 0: c.op("%d: (in_place, %d)", i, v); if constexpr(VOID) rebuild(i, estd::in_place_t()); else rebuild(i, estd::in_place_t(), Make<T>::of(v)); set(i, true, canv(v)); VF_EV("constructed"); break;
            case 1: c.op("%d: (unexpect, %d)", i, v); rebuild(i, estd::unexpect_t(), Make<E>::of(v)); set(i, false, cane(v)); VF_EV("constructed"); break;
            case 2: if constexpr(!VOID) { c.op("%d: (%d)", i, v); if constexpr(std::is_copy_constructible<T>::value) { const V t = Make<T>::of(v); if(c.rng.coin()) rebuild(i, t); else rebuild(i, Make<T>::of(v)); } else rebuild(i, Make<T>::of(v)); set(i, true, canv(v)); VF_EV("constructed"); } break;
            case 3: if constexpr(std::is_copy_constructible<E>::value) { c.op("%d: (unexpected %d)", i, v); const estd::unexpected<E> u(Make<E>::of(v)); VF_EQ(num(u.error()), cane(v), "unexpected"); estd::unexpected<E> u2(u); VF_EQ(num(u2.error()), cane(v), "unexpected copied"); rebuild(i, u2); set(i, false, cane(v)); VF_EV("constructed"); } break;
            case 4: if constexpr((F & DEFAULT) != 0) { c.op("%d: ()", i); rebuild(i); set(i, true, VOID ? 0 : num(V())); VF_EV("default"); } break;
            case 5: if constexpr((F & FROMINT) != 0) { c.op("%d: (in_place, int %d)", i, v); rebuild(i, estd::in_place_t(), v); set(i, true, canv(v)); } break;
            case 6: if constexpr((F & COPY) != 0) if(i != j) { c.op("%d: (const %d)", i, j); if(c.rng.coin()) rebuild(i, (const X&)cells[j]); else rebuild(i, cells[j]); set(i, has[j], val[j], fuzzy[j]); VF_EV("copy constructed"); } break;
            case 7: if(i != j) { c.op("%d: (move %d)", i, j); rebuild(i, std::move(cells[j])); set(i, has[j], val[j], fuzzy[j]); fuzzy[j] = true; VF_EV("move constructed"); } break;
            case 8: case 9: case 10: if constexpr((F & COPY) != 0) { c.op("%d = const %d", i, j); if(c.rng.coin()) x = (const X&)cells[j]; else x = cells[j]; if(i == j) VF_EV("self assigned"); else { VF_EVN(has[i] == has[j] ? "copied over the same" : "copied over the other", 1); set(i, has[j], val[j], fuzzy[j]); } } break;
            case 11: case 12: case 13: if(i != j) { c.op("%d = move %d", i, j); x = std::move(cells[j]); VF_EVN(has[i] == has[j] ? "moved over the same" : "moved over the other", 1); set(i, has[j], val[j], fuzzy[j]); fuzzy[j] = true; } break;
            case 14: case 15: if constexpr(!VOID) { c.op("%d = %d", i, v); if constexpr(std::is_copy_constructible<T>::value) { const V t = Make<T>::of(v); if(c.rng.coin()) x = t; else x = Make<T>::of(v); } else x = Make<T>::of(v); VF_EVN(has[i] ? "assigned same" : "assigned other", 1); set(i, true, canv(v)); } break;
            case 16: case 17: if constexpr(std::is_copy_constructible<E>::value && std::is_copy_assignable<E>::value) { c.op("%d = unexpected %d", i, v); const estd::unexpected<E> u(Make<E>::of(v)); x = u; VF_EVN(has[i] ? "assigned error over value" : "assigned error over error", 1); set(i, false, cane(v)); VF_EQ(num(u.error()), cane(v), "unexpected after assignment"); } break;
            case 18: if constexpr((F & ERRINT) != 0) { c.op("%d = unexpected<int> %d", i, v); estd::unexpected<int> u(v); if(c.rng.coin()) x = u; else rebuild(i, u); set(i, false, cane(v)); VF_EV("converted error"); } break;
            case 19: if constexpr(!VOID) { c.op("%d.emplace(%d)", i, v); V& r = x.emplace(Make<T>::of(v)); VF_REQ(&r == &*x, "emplace result"); VF_EVN(has[i] ? "emplaced over value" : "emplaced over error", 1); set(i, true, canv(v)); } break;
            case 20: if(has[i]) { if constexpr(!VOID && std::is_move_assignable<T>::value) { c.op("*%d = %d", i, v); if constexpr(std::is_copy_constructible<E>::value) { if(c.rng.coin()) *x = Make<T>::of(v); else x.value() = Make<T>::of(v); } else *x = Make<T>::of(v); set(i, true, canv(v)); VF_EV("written through"); } } else if constexpr(std::is_move_assignable<E>::value) { c.op("%d.error() = %d", i, v); x.error() = Make<E>::of(v); set(i, false, cane(v)); VF_EV("written through"); } break;
            default: if constexpr(!VOID) if(has[i] && !fuzzy[i]) { c.op("take from %d", i); if constexpr(std::is_copy_constructible<V>::value && std::is_copy_constructible<E>::value) { V k(*std::move((const X&)x)); VF_EQ(num(k), val[i], "value copied from a const expiring expected"); V k2(std::move((const X&)x).value()); VF_EQ(num(k2), val[i], "value copied from a const expiring expected"); VF_EQ(num(*x), val[i], "value after copying it out"); } if constexpr(std::is_copy_constructible<V>::value && std::is_copy_constructible<E>::value) { if(c.rng.coin()) { V t(std::move(x).value()); VF_EQ(num(t), val[i], "value moved out"); } else { V t(*std::move(x)); VF_EQ(num(t), val[i], "value moved out"); } } else { V t(*std::move(x)); VF_EQ(num(t), val[i], "value moved out"); } fuzzy[i] = true; VF_EV("moved out"); }
        }
        verify(); uint64_t h = 0; for(int k = 0; k < K; ++k) h = mix(h ^ (uint64_t)(val[k] * 2 + has[k])); c.state(h); c.mark(h);
    }
    void run() { verify(); for(unsigned s = 10 + (unsigned)c.rng.below(60); s > 0; --s) step(); if(switches >= 3) c.nt(); }
};
template <unsigned F, class T, class E> void ehist(Ctx& c) { Ledger::reset(); { EHist<F, T, E> h(c); h.run(); } VF_LEDGER(0); }
}
#define EXP(name, w, F, ...) VF_REG(name, w, opt::ehist<F, __VA_ARGS__>)
