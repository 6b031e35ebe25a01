#pragma once
#include "vf.h"
#include "values.h"
#include <estd/variant.h>
#include <tuple>
#include <functional>
using namespace vf;
namespace opt {
struct Mono { bool operator==(const Mono&) const { return true; } };
inline int num(const Mono&) { return 0; }
template <> struct Make<Mono> { static Mono of(int) { return Mono(); } };
template <> struct Make<estd::monostate> { static estd::monostate of(int) { return {}; } };
inline int num(estd::monostate) { return 0; }
inline int num(char v) { return v; }
inline int num(const char* p) { return p ? (int)(p - (const char*)0x1000) : 0; }
template <> struct Make<const char*> { static const char* of(int v) { return (const char*)0x1000 + v; } };
typedef std::unique_ptr<Tracked> Uniq;
inline int num(const Uniq& u) { return u ? u->get() : -77; }
template <> struct Make<Uniq> { static Uniq of(int v) { return Uniq(new Tracked(v)); } };
template <class T> constexpr bool counted() { return tracked<T>() || std::is_same<T, Uniq>::value; }
constexpr int VALUELESS = -1;
enum { CONVERT = 1, COPY = 2, DEFAULT = 4, UNIQUE = 8 };   // CONVERT: values convert to exactly one alternative; UNIQUE: alternatives are distinct types
struct Seen { int calls = 0, index = -2, value = 0; };
struct Look
{
    Seen* s;
    template <size_t I, class T> bool operator()(estd::variadic::v2::instance<I, T> i) { ++s->calls; s->index = (int)I; s->value = num((const typename std::remove_const<T>::type&)i.value); return true; }
};
struct Poke
{
    int to; int* calls;
    template <size_t I, class T> bool operator()(estd::variadic::v2::instance<I, T> i, int extra) { ++*calls; poke(i.value, to + extra, std::is_copy_assignable<T>()); return true; }
    template <class T> static void poke(T& v, int x, std::true_type) { v = Make<T>::of(x); }
    template <class T> static void poke(T&, int, std::false_type) {}
};
struct Decline { int* calls; template <size_t I, class T> bool operator()(estd::variadic::v2::instance<I, T>) const { ++*calls; return false; } };

template <unsigned F, class ...Ts> struct VHist
{
    typedef estd::variant<Ts...> V; enum { N = sizeof...(Ts), K = 3 };
    template <size_t I> using Alt = typename std::tuple_element<I, std::tuple<Ts...>>::type;
    Ctx& c; Raw<V> cells; int idx[K]; int val[K]; bool fuzzy[K]; unsigned switches = 0;
    explicit VHist(Ctx& c_) : c(c_), cells(K) { for(int i = 0; i < K; ++i) { new(&cells[i]) V(estd::in_place_index_t<0>(), Make<Alt<0>>::of(1)); idx[i] = 0; val[i] = num(*estd::get_if<0>(&cells[i])); fuzzy[i] = false; } }
    ~VHist() { for(int i = 0; i < K; ++i) cells[i].~V(); }
    void set(int i, int ix, int v, bool f = false) { if(idx[i] != ix) ++switches; idx[i] = ix; val[i] = v; fuzzy[i] = f; }
    template <size_t I> static int canon(int v) { return num(Make<Alt<I>>::of(v)); }     // value as seen through the alternative

    template <size_t I> void check_alt(int i)
    {
        V& v = cells[i]; const V& cv = v; bool held = idx[i] == (int)I;
        auto* p = estd::get_if<I>(&v); auto* cp = estd::get_if<I>(&cv);
        VF_REQ((p != nullptr) == held && (cp != nullptr) == held, "get_if<%zu> while index is %d", I, idx[i]); VF_REQ((const void*)p == (const void*)cp, "get_if of const differs");
        bool threw = false; try { auto& r = estd::get<(int)I>(v); VF_REQ((void*)&r == (void*)p, "get and get_if differ"); auto& cr = estd::get<(int)I>(cv); VF_REQ((const void*)&cr == (const void*)p, "get and get_if differ"); } catch(const estd::bad_variant_access&) { threw = true; }
        VF_EQ(threw, !held, "get of an alternative that is not held throws");
        if(!held) VF_EV("refused");
        if(held)
        {
            VF_REQ((uintptr_t)p % alignof(Alt<I>) == 0, "alternative misaligned"); VF_REQ((char*)p >= (char*)&v && (char*)(p + 1) <= (char*)(&v + 1), "alternative outside the variant");
            if(!fuzzy[i]) { VF_EQ(num(*cp), val[i], "value"); VF_EV("held"); }
        }
        if constexpr((F & UNIQUE) != 0)
        {
            VF_REQ((const void*)estd::get_if<Alt<I>>(&v) == (const void*)p && (const void*)estd::get_if<Alt<I>>(&cv) == (const void*)p, "get_if<T>"); VF_EQ((bool)estd::holds_alternative<Alt<I>>(cv), held, "holds_alternative");
            threw = false; try { VF_REQ((const void*)&estd::get<Alt<I>>(v) == (const void*)p, "get<T>"); VF_REQ((const void*)&estd::get<Alt<I>>(cv) == (const void*)p, "get<T> const"); } catch(const estd::bad_variant_access&) { threw = true; } VF_EQ(threw, !held, "get<T> throws");
        }
    }
    template <size_t ...I> void check_all(int i, std::index_sequence<I...>) { (check_alt<I>(i), ...); }
    template <size_t ...I> bool is_counted(int ix, std::index_sequence<I...>) { bool r = false; ((r = (int)I == ix ? counted<Alt<I>>() : r), ...); return r; }
    long live(int i) { if(idx[i] < 0 || !is_counted(idx[i], std::index_sequence_for<Ts...>())) return 0; bool u = false; u = is_empty_uniq(i, std::index_sequence_for<Ts...>()); return u ? 0 : 1; }
    template <size_t ...I> bool is_empty_uniq(int i, std::index_sequence<I...>) { bool r = false; ((r = r || ((int)I == idx[i] && empty_uniq(estd::get_if<I>(&cells[i])))), ...); return r; }
    static bool empty_uniq(Uniq* u) { return u && !*u; } template <class T> static bool empty_uniq(T*) { return false; }
    void verify()
    {
        long l = 0;
        for(int i = 0; i < K; ++i)
        {
            V& v = cells[i]; const V& cv = v;
            VF_EQ((long)(cv.valueless_by_exception() ? VALUELESS : (long)cv.index()), (long)idx[i], "index");
            check_all(i, std::index_sequence_for<Ts...>()); l += live(i);
            Seen s; size_t r = cv.visit_index(Look{&s}); visited(i, s, r); s = Seen(); r = v.visit_index(Look{&s}); visited(i, s, r); s = Seen(); r = v.visit(Look{&s}); visited(i, s, r);
            int calls = 0; r = cv.visit_index(Decline{&calls}); VF_REQ(calls == (idx[i] >= 0) && r == estd::internal::variant_npos(), "declined visit: %d calls", calls);
        }
        VF_LEDGER(l);
    }
    void visited(int i, const Seen& s, size_t r)
    {
        VF_EQ(s.calls, idx[i] >= 0 ? 1 : 0, "visitor calls"); if(idx[i] < 0) { VF_REQ(r == estd::internal::variant_npos(), "visit of a valueless variant"); VF_EV("valueless"); return; }
        VF_EQ((long)r, (long)idx[i], "visit result"); VF_EQ(s.index, idx[i], "index visited"); if(!fuzzy[i]) VF_EQ(s.value, val[i], "value visited"); VF_EV("visited");
    }
    template <class ...A> void rebuild(int i, A&&... a) { cells[i].~V(); memset((void*)&cells[i], (int)c.rng.below(256), sizeof(V)); new(&cells[i]) V(std::forward<A>(a)...); }
    // after a move the source may keep its alternative or give it up
    void adopt(int j) { if(idx[j] == VALUELESS) return; if(cells[j].valueless_by_exception()) set(j, VALUELESS, 0); else { VF_EQ((long)cells[j].index(), (long)idx[j], "index of the moved-from variant"); fuzzy[j] = true; } }
    // rvalue of the copyable alternative, or fresh make
    template <size_t I> void with(int i, int op)
    {
        typedef Alt<I> T; int v = (int)c.rng.range(1, 99), cv = canon<I>(v); V& x = cells[i];
        switch(op)
        {
            case 0: c.op("%d: (in_place_index<%zu>, %d)", i, I, v); rebuild(i, estd::in_place_index_t<I>(), Make<T>::of(v)); set(i, I, cv); VF_EV("constructed"); break;
            case 1: if constexpr((F & UNIQUE) != 0) { c.op("%d: (in_place_type<#%zu>, %d)", i, I, v); rebuild(i, estd::in_place_type_t<T>(), Make<T>::of(v)); set(i, I, cv); VF_EV("constructed"); } break;
            case 2: if constexpr((F & CONVERT) != 0) { c.op("%d: (#%zu %d)", i, I, v); if(c.rng.coin() || !std::is_copy_constructible<T>::value) rebuild(i, Make<T>::of(v)); else if constexpr(std::is_copy_constructible<T>::value) { const T t = Make<T>::of(v); rebuild(i, t); } set(i, I, cv); VF_EV("converted"); } break;
            case 3: case 4: if constexpr((F & CONVERT) != 0) { c.op("%d = #%zu %d", i, I, v); if(c.rng.coin() || !std::is_copy_constructible<T>::value) x = Make<T>::of(v); else if constexpr(std::is_copy_constructible<T>::value) { const T t = Make<T>::of(v); x = t; } VF_EV(idx[i] == (int)I ? "assigned same" : "assigned other"); set(i, I, cv); } break;
            case 5: { c.op("%d.emplace<%zu>(%d)", i, I, v); auto& r = x.template emplace<I>(Make<T>::of(v)); VF_EQ(num(r), cv, "emplace result"); set(i, I, cv); VF_EV("emplaced"); break; }
            case 6: if constexpr((F & UNIQUE) != 0) { c.op("%d.emplace<#%zu>(%d)", i, I, v); auto& r = x.template emplace<T>(Make<T>::of(v)); VF_EQ(num(r), cv, "emplace result"); set(i, I, cv); VF_EV("emplaced"); } break;
            case 7: if constexpr(std::is_move_assignable<T>::value) if(idx[i] == (int)I) { c.op("get<%zu>(%d) = %d", I, i, v); estd::get<(int)I>(x) = Make<T>::of(v); set(i, I, cv); VF_EV("written through"); } break;
            default: if(idx[i] == (int)I && !fuzzy[i]) { c.op("move get<%zu> out of %d", I, i); if constexpr((F & UNIQUE) != 0) { if(c.rng.coin()) { T t(estd::get<T>(std::move(x))); VF_EQ(num(t), val[i], "value moved out by type"); VF_EV("moved out by type"); } else { T t(estd::get<(int)I>(std::move(x))); VF_EQ(num(t), val[i], "value moved out"); } } else { T t(estd::get<(int)I>(std::move(x))); VF_EQ(num(t), val[i], "value moved out"); } fuzzy[i] = true; VF_EV("moved out"); }
        }
    }
    template <size_t ...I> void any(int i, int op, std::index_sequence<I...>) { size_t k = op >= 7 && idx[i] >= 0 ? (size_t)idx[i] : c.rng.below(N); ((I == k ? with<I>(i, op) : (void)0), ...); }
    void step()
    {
        int i = (int)c.rng.below(K), j = (int)c.rng.below(K);
        switch(unsigned op = (unsigned)c.rng.below(16))
        {
            case 9: if(i == j) break; if constexpr((F & COPY) != 0) { c.op("%d: (const %d)", i, j); if(c.rng.coin()) rebuild(i, (const V&)cells[j]); else rebuild(i, cells[j]); set(i, idx[j], val[j], fuzzy[j]); VF_EV("copy constructed"); } break;
            case 10: if(i == j) break; c.op("%d: (move %d)", i, j); rebuild(i, std::move(cells[j])); set(i, idx[j], val[j], fuzzy[j]); adopt(j); VF_EV("move constructed"); break;
            case 11: case 12: if constexpr((F & COPY) != 0) { c.op("%d = const %d", i, j); if(c.rng.coin()) cells[i] = (const V&)cells[j]; else cells[i] = cells[j]; if(i == j) VF_EV("self assigned"); else { if(idx[j] == VALUELESS) VF_EV("assigned valueless"); set(i, idx[j], val[j], fuzzy[j]); VF_EV("copy assigned"); } } break;
            case 13: if(i == j) break; c.op("%d = move %d", i, j); cells[i] = std::move(cells[j]); set(i, idx[j], val[j], fuzzy[j]); adopt(j); VF_EV("move assigned"); break;
            case 14: if constexpr((F & DEFAULT) != 0) { c.op("%d: default", i); rebuild(i); set(i, 0, 0); VF_EV("default"); } break;
            case 15: { if(idx[i] < 0) break; int v = (int)c.rng.range(1, 50), calls = 0; c.op("poke %d with %d", i, v); size_t r = cells[i].visit_index(Poke{v, &calls}, 7); VF_EQ((long)r, (long)idx[i], "visit result"); VF_EQ(calls, 1, "visitor calls"); poked(i, v + 7, std::index_sequence_for<Ts...>()); break; }
            default: any(i, (int)op, std::index_sequence_for<Ts...>());
        }
        verify(); uint64_t h = 0; for(int k = 0; k < K; ++k) h = mix(h ^ (uint64_t)(idx[k] * 1000 + val[k])); c.state(h); c.mark(h);
    }
    template <size_t ...I> void poked(int i, int v, std::index_sequence<I...>) { (((int)I == idx[i] && std::is_copy_assignable<Alt<I>>::value ? (set(i, I, canon<I>(v)), (void)0) : (void)0), ...); }
    void run() { verify(); for(unsigned s = 10 + (unsigned)c.rng.below(50); s > 0; --s) step(); if(switches >= 3) c.nt(); }
};
template <unsigned F, class ...Ts> void vhist(Ctx& c) { Ledger::reset(); { VHist<F, Ts...> h(c); h.run(); } VF_LEDGER(0); }
}
#define VAR(name, w, ...) VF_REG(name, w, opt::vhist<__VA_ARGS__>)
