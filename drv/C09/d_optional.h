#pragma once
#include "vf.h"
#include <estd/optional.h>
#include <optional>
#include <string>
#include <vector>
#include "values.h"
using namespace vf;
namespace opt {
constexpr int NONE = -1000000;

// F: flags
enum { ORDERED = 1, EMPLACE = 2, HASHED = 4, REFS = 8, ASSIGNINT = 16, NOASSIGN = 32 };
template <class O, class T, int NUL, int LO, int HI, unsigned F> struct History
{
    struct alignas(O) Cell { O o; template <class ...A> Cell(A&&... a) : o(std::forward<A>(a)...) {} };
    enum { K = 4 };
    Ctx& c; Raw<O> cells; int model[K]; bool fuzzy[K];      // fuzzy: moved from, value unspecified
    unsigned transitions = 0;
    explicit History(Ctx& c_) : c(c_), cells(K) { for(int i = 0; i < K; ++i) { new(&cells[i]) O; model[i] = NONE; fuzzy[i] = false; } }
    ~History() { for(int i = 0; i < K; ++i) cells[i].~O(); }
    int val(int v) const { return v == NUL ? NONE : v; }        // reserved value means disengaged
    void set(int i, int v) { if((model[i] == NONE) != (v == NONE)) ++transitions; model[i] = v; fuzzy[i] = false; }
    static T make(int v) { return Make<T>::of(v); }
    template <class X> static int n(X&& x) { return num((const T&)x); }
    void verify()
    {
        long live = 0;
        for(int i = 0; i < K; ++i)
        {
            O& o = cells[i]; const O& co = o; bool e = model[i] != NONE; live += e;
            VF_EQ((bool)co.has_value(), e, "has_value"); VF_EQ((bool)(co ? true : false), e, "operator bool");
            if(e)
            {
                VF_EV("engaged read");
                if(fuzzy[i]) continue;
                VF_EQ(n(*co), model[i], "operator* const"); VF_EQ(n(*o), model[i], "operator*"); VF_EQ(n(co.value()), model[i], "value() const"); VF_EQ(n(o.value()), model[i], "value()");
                VF_EQ(n(co.value_or(make(LO))), model[i], "value_or");
                if constexpr((F & REFS) != 0) { VF_REQ(&*o == &o.value() && &*co == &*o && co.operator->() == &*o && o.operator->() == &*o, "accessors name different objects"); VF_EQ(n(*co.operator->()), model[i], "operator->"); VF_REQ((char*)&*o >= (char*)&o && (char*)(&*o + 1) <= (char*)(&o + 1), "value outside the optional"); VF_REQ((uintptr_t)&*o % alignof(T) == 0, "value misaligned"); }
            }
            else
            {
                VF_EV("disengaged read");
                bool threw = false; try { (void)co.value(); } catch(const estd::bad_optional_access&) { threw = true; } VF_REQ(threw, "value() of a disengaged optional did not throw");
                int d = (int)c.rng.range(LO, HI); VF_EQ(n(co.value_or(make(d))), d, "value_or");
            }
        }
        if(tracked<T>()) VF_LEDGER(live);
    }
    void compare(int i, int j)
    {
        const O& a = cells[i]; const O& b = cells[j]; if(fuzzy[i] || fuzzy[j]) return;
        int v = c.rng.coin() && model[i] != NONE ? model[i] : (int)c.rng.range(LO, HI); bool e = model[i] != NONE; const T x = make(v);
        VF_EQ((bool)(a == b), model[i] == model[j], "optional == optional"); VF_EQ((bool)(b == a), model[i] == model[j], "optional == optional"); VF_EQ((bool)(a != b), model[i] != model[j], "optional != optional");
        VF_EQ((bool)(a == x), e && model[i] == v, "optional == value"); VF_EQ((bool)(x == a), e && model[i] == v, "value == optional"); VF_EQ((bool)(a != x), !e || model[i] != v, "optional != value");
        if constexpr((F & ORDERED) != 0)
        {
            VF_EQ((bool)(a < x), e && model[i] < v, "optional < value"); VF_EQ((bool)(a > x), e && model[i] > v, "optional > value");
            VF_EQ((bool)(a <= x), e && model[i] <= v, "optional <= value"); VF_EQ((bool)(a >= x), e && model[i] >= v, "optional >= value");
        }
        if constexpr((F & HASHED) != 0)
        {
            typedef estd::hash<O> H; if(model[i] == model[j]) VF_REQ(H{}(a) == H{}(b), "equal optionals hash differently"); if(e) VF_REQ(H{}(a) == estd::hash<T>{}(make(model[i])), "hash of an engaged optional");
            VF_EV("hashed");
        }
        VF_EV("compared"); if(!e || model[j] == NONE) VF_EV("compared disengaged");
    }
    template <class ...A> void rebuild(int i, A&&... a) { cells[i].~O(); memset((void*)&cells[i], (int)c.rng.below(256), sizeof(O)); new(&cells[i]) O(std::forward<A>(a)...); }
    void take(int i, int j) { bool f = fuzzy[j]; set(i, model[j]); fuzzy[i] = f; }
    void moved_from(int j) { if(model[j] != NONE && NUL == NONE) fuzzy[j] = std::is_class<T>::value; }
    void step()
    {
        int i = (int)c.rng.below(K), j = (int)c.rng.below(K), v = (int)c.rng.range(LO, HI); O& o = cells[i];
        switch(c.rng.below(22))
        {
            case 0: c.op("%d: default", i); rebuild(i); set(i, NONE); break;
            case 1: c.op("%d: (nullopt)", i); rebuild(i, estd::nullopt); set(i, NONE); break;
            case 2: c.op("%d: (T %d)", i, v); rebuild(i, make(v)); set(i, val(v)); break;
            case 3: { c.op("%d: (const T& %d)", i, v); const T x = make(v); rebuild(i, x); set(i, val(v)); break; }
            case 4: c.op("%d: (in_place, %d)", i, v); rebuild(i, estd::in_place_t{}, make(v)); set(i, val(v)); break;
            case 5: case 6: if(i == j) break; c.op("%d: (const %d)", i, j); if(c.rng.coin()) rebuild(i, (const O&)cells[j]); else rebuild(i, cells[j]); take(i, j); VF_EV("copy constructed"); if(model[j] == NONE) VF_EV("copy of disengaged"); break;
            case 7: if(i == j) break; c.op("%d: (move %d)", i, j); rebuild(i, std::move(cells[j])); take(i, j); moved_from(j); VF_EV("move constructed"); break;
            case 8: if constexpr(!(F & NOASSIGN)) { c.op("%d = T %d", i, v); o = make(v); set(i, val(v)); VF_EV("assigned value"); } break;
            case 9: if constexpr(!(F & NOASSIGN)) { c.op("%d = const T& %d", i, v); const T x = make(v); o = x; set(i, val(v)); VF_EV("assigned value"); } break;
            case 10: if constexpr(!(F & NOASSIGN)) { c.op("%d = T& %d", i, v); T x = make(v); o = x; set(i, val(v)); VF_EV("assigned value"); } break;
            case 11: case 12: case 13: c.op("%d = const %d", i, j); if(c.rng.coin()) o = (const O&)cells[j]; else o = cells[j]; take(i, j); VF_EV("copy assigned"); if(i == j) VF_EV("self assigned"); break;
            case 14: if(i == j) break; c.op("%d = move %d", i, j); o = std::move(cells[j]); take(i, j); moved_from(j); VF_EV("move assigned"); break;
            case 15: c.op("%d = nullopt", i); o = estd::nullopt; set(i, NONE); VF_EV("emptied"); break;
            case 16: c.op("%d.reset()", i); o.reset(); set(i, NONE); VF_EV("emptied"); break;
            case 17: if constexpr((F & EMPLACE) != 0) { c.op("%d.emplace(%d)", i, v); auto& r = o.emplace(make(v)); VF_EQ(n(r), v, "emplace result"); set(i, val(v)); VF_EV("emplaced"); } break;
            case 18: if constexpr((F & REFS) != 0 && !(F & NOASSIGN)) if(model[i] != NONE && v != NUL) { c.op("*%d = %d", i, v); if(c.rng.coin()) *o = make(v); else o.value() = make(v); set(i, v); VF_EV("written through"); } break;
            case 19: if constexpr((F & ASSIGNINT) != 0) { c.op("%d = int %d", i, v); o = v; set(i, val(v)); VF_EV("assigned convertible"); } break;
            case 20: if(model[i] != NONE && !fuzzy[i]) { c.op("move out of %d", i); const long cp = Ledger::copies;
                const unsigned how = c.rng.below(3); switch(how) { case 0: { T t(std::move(o).value()); VF_EQ(num(t), model[i], "value moved out"); break; } case 1: { T t(std::move(o).value_or(make(LO))); VF_EQ(num(t), model[i], "value_or of an expiring optional"); break; } default: { T t(std::move((const O&)o).value()); VF_EQ(num(t), model[i], "value of a const expiring optional"); VF_EQ(n(*o), model[i], "value after it was copied out"); break; } }
                if(tracked<T>() && how < 2) { VF_EQ(Ledger::copies, cp, "copies made of an expiring value"); VF_EV("no copy made"); } moved_from(i); VF_EV("moved out"); }
                else if(model[i] == NONE) { c.op("value_or of expiring %d", i); const long cp = Ledger::copies; T t(std::move(o).value_or(make(v))); VF_EQ(num(t), v, "value_or of an expiring disengaged optional"); VF_EQ(Ledger::copies, cp, "copies made of the default"); VF_EV("default moved out"); } break;
            default: compare(i, j); compare(j, i);
        }
        verify(); uint64_t h = 0; for(int k = 0; k < K; ++k) h = mix(h ^ (uint64_t)model[k]); c.state(h); c.mark(h);
    }
    void run() { verify(); for(unsigned s = 12 + (unsigned)c.rng.below(50); s > 0; --s) step(); if(transitions >= 3) c.nt(); }
};
template <class O, class T, int NUL, int LO, int HI, unsigned F> void hist(Ctx& c)
{
    Ledger::reset(); { History<O, T, NUL, LO, HI, F> h(c); h.run(); } if(tracked<T>()) VF_LEDGER(0);
}
}
#define OPT(name, O, T, NUL, LO, HI, F, w) VF_REG(name, w, opt::hist<O, T, NUL, LO, HI, F>)
