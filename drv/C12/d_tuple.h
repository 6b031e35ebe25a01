#pragma once
#include "vf.h"
#include "values.h"
#include <estd/tuple.h>
#include <estd/utility.h>
#include <estd/internal/variadic.h>
#include <tuple>
using namespace vf;
namespace opt {
struct E0 {}; struct E1 {}; struct E2 { bool operator==(const E2&) const { return true; } };
inline int num(const E0&) { return 0; } inline int num(const E1&) { return 0; } inline int num(const E2&) { return 0; } inline int num(estd::monostate) { return 0; }
template <> struct Make<E0> { static E0 of(int) { return {}; } }; template <> struct Make<E1> { static E1 of(int) { return {}; } }; template <> struct Make<E2> { static E2 of(int) { return {}; } }; template <> struct Make<estd::monostate> { static estd::monostate of(int) { return {}; } };
typedef std::unique_ptr<Tracked> Uniq;
inline int num(const Uniq& u) { return u ? u->get() : -77; }
template <> struct Make<Uniq> { static Uniq of(int v) { return Uniq(new Tracked(v)); } };
inline int num(const char* const& p) { return (int)(p - (const char*)0x1000); }
template <> struct Make<const char*> { static const char* of(int v) { return (const char*)0x1000 + v; } };
template <class T> constexpr bool counted() { return tracked<T>() || std::is_same<T, Uniq>::value; }

// what an element of the tuple looks like to a callable: CAT 0 lvalue, 1 const lvalue, 2 rvalue
template <class T, int CAT, bool SPARSE> struct Cat { typedef typename std::conditional<CAT == 0, T&, typename std::conditional<CAT == 1, const T&, T&&>::type>::type ref; typedef typename std::conditional<SPARSE && std::is_empty<T>::value, T&&, ref>::type type; };
template <bool SPARSE, int CAT, class ...Ts> struct Taker
{
    int* calls; int* seen;
    template <class ...A> size_t operator()(A&&... a) const
    {
        static_assert(sizeof...(A) == sizeof...(Ts), "apply passes every element"); ++*calls; Ctx& c = cur();
        bool same[] = { true, std::is_same<A&&, typename Cat<Ts, CAT, SPARSE>::type>::value... }; for(bool b : same) VF_REQ(b, "apply changed a type or value category");
        int i = 0; int fill[] = { 0, (seen[i++] = num((const typename std::decay<A>::type&)a))... }; (void)fill; return sizeof...(A) * 3 + 1;
    }
};
struct Step { int index, value; const void* at; bool isconst; };
struct Walk
{
    std::vector<Step>* out; unsigned accept;
    template <size_t I, class T> bool operator()(estd::variadic::v2::instance<I, T> i, int extra) const
    {
        Ctx& c = cur(); VF_EQ(extra, 17, "extra argument of visit"); out->push_back(Step{(int)I, num((const typename std::remove_cv<typename std::remove_reference<T>::type>::type&)i.value), &i.value, std::is_const<T>::value}); return (accept >> I & 1) != 0;
    }
};
template <bool SPARSE, bool COPY, class ...Ts> struct Tup
{
    typedef estd::internal::tuple<SPARSE, Ts...> T; enum { N = sizeof...(Ts) };
    template <size_t I> using El = typename std::tuple_element<I, std::tuple<Ts...>>::type;
    Ctx& c; int val[N + 1]; Raw<T> cells; bool stale = false;
    explicit Tup(Ctx& c_) : c(c_), cells(2) {}
    static constexpr long trk() { long n = 0; bool b[] = { false, counted<Ts>()... }; for(bool x : b) n += x; return n; }
    template <size_t I> void element(T& t)
    {
        const T& ct = t; typedef El<I> V;
        static_assert(std::is_same<estd::tuple_element_t<I, T>, V>::value, "tuple_element"); 
        VF_EQ(num(estd::get<(int)I>(ct)), val[I], "get<I>"); VF_EQ(num(estd::get<(int)I>(t)), val[I], "get<I>"); VF_EV("element");
        if constexpr(!(SPARSE && std::is_empty<V>::value))
        {
            V* p = &estd::get<(int)I>(t); const V* cp = &estd::get<(int)I>(ct); VF_REQ(p == cp, "get of const differs"); VF_REQ((uintptr_t)p % alignof(V) == 0 && (char*)p >= (char*)&t && (char*)(p + 1) <= (char*)(&t + 1), "element misplaced");
            V&& r = estd::get<(int)I>(std::move(t)); VF_REQ(&r == p, "get of an rvalue differs"); const V&& cr = estd::get<(int)I>((const T&&)t); VF_REQ(&cr == p, "get of a const rvalue differs");
            constexpr int same = (0 + ... + std::is_same<Ts, V>::value);
            if constexpr(same == 1) { VF_REQ(&estd::get<V>(t) == p && &estd::get<V>(ct) == p, "get<T>"); V&& tr = estd::get<V>(std::move(t)); VF_REQ(&tr == p, "get<T> of an rvalue"); VF_EV("by type"); }
        }
    }
    template <size_t I, size_t J> void apart(T& t) { if constexpr(I != J && !(SPARSE && (std::is_empty<El<I>>::value || std::is_empty<El<J>>::value))) { char* a = (char*)&estd::get<(int)I>(t), *b = (char*)&estd::get<(int)J>(t); VF_REQ(a + sizeof(El<I>) <= b || b + sizeof(El<J>) <= a, "elements %zu and %zu overlap", I, J); } }
    template <size_t I, size_t ...J> void aparts(T& t, std::index_sequence<J...>) { (apart<I, J>(t), ...); }
    template <size_t ...I> void check(T& t, std::index_sequence<I...> s) { (element<I>(t), ...); (aparts<I>(t, s), ...); }
    void visits(T& t)
    {
        for(int k = 0; k < 4; ++k)
        {
            unsigned accept = k == 0 ? 0 : (unsigned)c.rng.below(1u << N); int first = -1; for(int i = N - 1; i >= 0; --i) if(accept >> i & 1) first = i;
            std::vector<Step> out; int r; const T& ct = t; bool con = c.rng.coin(); if(con) r = ct.visit(Walk{&out, accept}, 17); else r = t.visit(Walk{&out, accept}, 17);
            VF_EQ(r, first, "visit result"); VF_EQ((long)out.size(), first < 0 ? (long)N : (long)first + 1, "elements visited"); for(size_t i = 0; i < out.size(); ++i) { VF_EQ(out[i].index, (long)i, "visit order"); VF_EQ(out[i].value, val[i], "visited value"); VF_EQ(out[i].isconst, con, "constness of the visited element"); }
            VF_EV(first < 0 ? "visited all" : "visit stopped");
        }
    }
    template <size_t ...I> void addresses(T& t, std::index_sequence<I...>) { std::vector<Step> out; t.visit(Walk{&out, 0}, 17); ((SPARSE && std::is_empty<El<I>>::value ? (void)0 : same(out[I].at, addr<I>(t), I)), ...); }
    void same(const void* a, const void* b, size_t i) { VF_REQ(a == b, "visited element %zu is a copy", i); }
    template <size_t I> const void* addr(T& t) { if constexpr(SPARSE && std::is_empty<El<I>>::value) return nullptr; else return &estd::get<(int)I>(t); }
    void applies(T& t)
    {
        int calls = 0, seen[N + 1]; size_t r = estd::apply(Taker<SPARSE, 0, Ts...>{&calls, seen}, t); one(calls, seen, r); const T& ct = t; calls = 0; r = estd::apply(Taker<SPARSE, 1, Ts...>{&calls, seen}, ct); one(calls, seen, r);
        calls = 0; r = estd::apply(Taker<SPARSE, 2, Ts...>{&calls, seen}, std::move(t)); one(calls, seen, r);
    }
    void one(int calls, int* seen, size_t r) { VF_EQ(calls, 1, "apply calls"); VF_EQ((long)r, (long)N * 3 + 1, "apply result"); for(int i = 0; i < N; ++i) VF_EQ(seen[i], val[i], "applied value"); VF_EV("applied"); }
    template <size_t I> void poke(T& t, int v) { typedef El<I> V; if constexpr(!std::is_empty<V>::value && std::is_move_assignable<V>::value) { c.op("get<%zu> = %d", I, v); estd::get<(int)I>(t) = Make<V>::of(v); val[I] = num(Make<V>::of(v)); VF_EV("written"); } }
    template <size_t ...I> void run(std::index_sequence<I...> s)
    {
        int raw[N + 1]; for(int i = 0; i < N; ++i) raw[i] = (int)c.rng.range(1, 99); int fill[] = { 0, (val[I] = num(Make<Ts>::of(raw[I])))... }; (void)fill;
        static_assert(estd::tuple_size<T>::value == N, "tuple_size");
        c.op("construct"); if constexpr(N == 0) new(&cells[0]) T(); else if(c.rng.coin()) new(&cells[0]) T(Make<Ts>::of(raw[I])...); else make(0, raw, s);
        T* t = &cells[0]; VF_LEDGER(trk()); check(*t, s);
        for(int k = 0; k < 6; ++k)
        {
            switch(c.rng.below(8))
            {
                case 5: if constexpr(std::is_copy_assignable<std::tuple<Ts...>>::value) { c.op("copy assign"); T* o = t == &cells[0] ? &cells[1] : &cells[0]; fresh(o, s); *o = (const T&)*t; check(*o, s); check(*t, s); VF_LEDGER(2 * trk()); t->~T(); t = o; VF_EV("tuple copy assigned"); } break;
                case 6: if constexpr(std::is_move_assignable<std::tuple<Ts...>>::value) { c.op("move assign"); T* o = t == &cells[0] ? &cells[1] : &cells[0]; fresh(o, s); *o = std::move(*t); check(*o, s); t->~T(); t = o; VF_EV("tuple move assigned"); } break;
                case 7: if constexpr(std::is_copy_assignable<std::tuple<Ts...>>::value) { c.op("self assign"); const T& me = *t; *t = me; VF_EV("tuple self assigned"); } break;
                case 0: visits(*t); addresses(*t, s); break;
                case 1: applies(*t); break;
                case 2: { size_t w = c.rng.below(N ? N : 1); int v = (int)c.rng.range(1, 99); ((I == w ? poke<I>(*t, v) : (void)0), ...); break; }
                case 3: if constexpr(COPY) { c.op("copy"); T* o = t == &cells[0] ? &cells[1] : &cells[0]; if(c.rng.coin()) new(o) T((const T&)*t); else new(o) T(*t); check(*o, s); VF_LEDGER(2 * trk()); check(*t, s); t->~T(); t = o; VF_EV("copied"); } break;
                default: { c.op("move"); T* o = t == &cells[0] ? &cells[1] : &cells[0]; new(o) T(std::move(*t)); t->~T(); t = o; VF_EV("moved"); }
            }
            check(*t, s); VF_LEDGER(trk()); uint64_t h = 0; for(int i = 0; i < N; ++i) h = mix(h ^ (uint64_t)val[i]); c.mark(h); c.state(h);
        }
        t->~T(); VF_LEDGER(0); c.nt();
    }
    template <size_t ...I> void fresh(T* o, std::index_sequence<I...>) { if constexpr(N == 0) new(o) T(); else new(o) T(Make<Ts>::of((int)c.rng.range(1, 99))...); }
    template <size_t ...I> void make(int w, int* raw, std::index_sequence<I...>) { if constexpr(std::is_same<T, estd::tuple<Ts...>>::value) new(&cells[w]) T(estd::make_tuple(Make<Ts>::of(raw[I])...)); else new(&cells[w]) T(Make<Ts>::of(raw[I])...); VF_EV("made"); }
};
template <bool SPARSE, bool COPY, class ...Ts> void tup(Ctx& c) { Ledger::reset(); { Tup<SPARSE, COPY, Ts...> t(c); t.run(std::index_sequence_for<Ts...>()); } VF_LEDGER(0); }
}
#define TUP(name, w, ...) VF_REG(name, w, opt::tup<__VA_ARGS__>)
