// Histories of lock object operations on instrumented mutexes against an ownership model
#include "d_mutex.h"
#include <vector>
using namespace mx;
typedef estd::unique_lock<Mon> UL;
namespace {
struct Obj { std::unique_ptr<vf::Boxed<UL>> l; int m = -1; bool own = false; };
struct World
{
    Ctx& c; static const int NM = 3, NO = 4; Mon m[NM]; bool held[NM] = {}; unsigned locks[NM] = {}, unlocks[NM] = {}; Obj o[NO]; bool orphan[NM] = {};
    World(Ctx& c) : c(c) {}
    void check(const char* what)
    {
        for(int i = 0; i < NM; i++)
        {
            VF_REQ(!m[i].err, "%s: %s", what, m[i].err);
            VF_REQ(m[i].held == held[i], "%s: mutex %d is %s", what, i, m[i].held ? "still held" : "not held");
            VF_REQ(m[i].locks == locks[i] && m[i].unlocks == unlocks[i], "%s: mutex %d acquired %u released %u, expected %u/%u", what, i, m[i].locks, m[i].unlocks, locks[i], unlocks[i]);
        }
        for(int i = 0; i < NO; i++) if(o[i].l)
        {
            const UL& l = **o[i].l;
            VF_REQ(l.owns_lock() == o[i].own, "%s: object %d reports ownership %d", what, i, (int)l.owns_lock());
            VF_REQ((bool)l == o[i].own, "%s: object %d truth", what, i);
            VF_REQ(l.mutex() == (o[i].m < 0 ? nullptr : &m[o[i].m]), "%s: object %d names the wrong mutex", what, i);
        }
    }
    void acq(int i) { held[i] = true; ++locks[i]; } void rel(int i) { held[i] = false; ++unlocks[i]; }
    void drop(Obj& b) { if(b.own) rel(b.m); b.l.reset(); b.own = false; b.m = -1; }
    template <class... A> void make(Obj& b, A&&... a) { b.l.reset(new vf::Boxed<UL>(std::forward<A>(a)...)); }
};
}
VF_GROUP_W(unique_lock_histories, 100)
{
    c.nt();
    World w(c); int steps = 8 + c.rng.below(60);
    for(int s = 0; s < steps; s++)
    {
        int oi = c.rng.below(World::NO), mi = c.rng.below(World::NM); Obj& b = w.o[oi]; Mon& m = w.m[mi]; const char* what = "op";
        m.try_ok = !c.rng.chance(1, 4); m.timed_ok = c.rng.coin(); m.throws = false;
        unsigned op = c.rng.below(16); c.mark(op * 64 + oi * 8 + mi);
        if(op <= 5 && !b.l)
        {
            switch(op)
            {
                case 0: if(!w.held[mi]) { c.op("o%d(m%d)", oi, mi); w.make(b, m); w.acq(mi); b.m = mi; b.own = true; VF_EV("constructed locking"); what = "construct"; } break;
                case 1: c.op("o%d(m%d, defer)", oi, mi); w.make(b, m, estd::defer_lock_t{}); b.m = mi; VF_EV("constructed deferred"); what = "defer"; break;
                case 2: { bool ok = !w.held[mi] && m.try_ok; c.op("o%d(m%d, try) %d", oi, mi, ok); w.make(b, m, estd::try_to_lock_t{}); b.m = mi; b.own = ok; if(ok) w.acq(mi); if(ok) VF_EV("constructed trying"); else VF_EV("constructed trying in vain"); what = "try"; break; }
                case 3: if(!w.held[mi]) { c.op("lock m%d; o%d(adopt)", mi, oi); m.lock(); w.acq(mi); w.make(b, m, estd::adopt_lock_t{}); b.m = mi; b.own = true; VF_EV("adopted"); what = "adopt"; }
                        else if(w.orphan[mi]) { c.op("o%d(adopt orphan m%d)", oi, mi); w.make(b, m, estd::adopt_lock_t{}); b.m = mi; b.own = true; w.orphan[mi] = false; VF_EV("released ownership adopted"); what = "adopt"; } break;
                case 4: { bool ok = !w.held[mi] && m.timed_ok; long long ms = c.rng.below(100000); c.op("o%d(m%d, %lldms) %d", oi, mi, ms, ok); w.make(b, m, estd::chrono::milliseconds(ms)); b.m = mi; b.own = ok; if(ok) w.acq(mi);
                        VF_REQ(m.last_us == ms * 1000, "timed construction waited %lld us instead of %lld ms", m.last_us, ms); VF_EV("constructed timed"); what = "timed"; break; }
                case 5: c.op("o%d()", oi); w.make(b); VF_EV("constructed empty"); what = "empty"; break;
            }
        }
        else if(op == 0 && w.held[mi] == false)
        {   // a mutex that refuses: nothing acquired, nothing released
            c.op("refusing m%d", mi); m.throws = true; bool thrown = false;
            try { UL t(m); } catch(Refused&) { thrown = true; }
            m.throws = false; VF_REQ(thrown, "the refusal of the mutex was swallowed"); VF_EV("refused acquisitions"); what = "refused construction";
        }
        else if(b.l)
        {
            UL& l = **b.l;
            if(b.m >= 0) { mi = b.m; }
            Mon& q = w.m[mi]; q.try_ok = !c.rng.chance(1, 4); q.timed_ok = c.rng.coin();
            switch(op)
            {
                case 1: case 6: if(b.m >= 0 && !b.own && !w.held[mi]) { if(c.rng.chance(1, 5)) { c.op("o%d.lock refused", oi); q.throws = true; try { l.lock(); } catch(Refused&) {} q.throws = false; VF_EV("refused acquisitions"); } else { c.op("o%d.lock m%d", oi, mi); l.lock(); w.acq(mi); b.own = true; VF_EV("late locks"); } what = "lock"; } break;
                case 7: if(b.m >= 0 && !b.own) { bool ok = !w.held[mi] && q.try_ok; c.op("o%d.try_lock %d", oi, ok); VF_REQ(l.try_lock() == ok, "try_lock misreports"); if(ok) w.acq(mi); b.own = ok; VF_EV("try_lock"); what = "try_lock"; } break;
                case 8: if(b.m >= 0 && !b.own) { bool ok = !w.held[mi] && q.timed_ok; long long sec = c.rng.below(1000); c.op("o%d.try_lock_for %d", oi, ok); VF_REQ(l.try_lock_for(estd::chrono::seconds(sec)) == ok, "try_lock_for misreports"); VF_REQ(q.last_us == sec * 1000000, "try_lock_for waited %lld us", q.last_us); if(ok) w.acq(mi); b.own = ok; VF_EV("try_lock_for"); what = "try_lock_for"; } break;
                case 0: case 9: if(b.own) { c.op("o%d.unlock", oi); l.unlock(); w.rel(mi); b.own = false; VF_EV("early unlocks"); what = "unlock"; } break;
                case 10: { c.op("o%d.release", oi); Mon* e = b.m < 0 ? nullptr : &w.m[mi]; Mon* g = l.release(); VF_REQ(g == e, "release returns the wrong mutex"); if(b.own) w.orphan[mi] = true; b.m = -1; b.own = false; VF_EV("releases"); what = "release"; break; }
                case 2: case 11: case 12: c.op("~o%d", oi); if(b.own) VF_EV("destroyed owning"); else VF_EV("destroyed not owning"); w.drop(b); what = "destroy"; break;
                case 3: case 13: { Obj* t = nullptr; for(auto& x : w.o) if(!x.l) t = &x; if(!t) break; c.op("move construct from o%d", oi); w.make(*t, std::move(l)); t->m = b.m; t->own = b.own; b.m = -1; b.own = false; VF_EV("moved to a new object"); what = "move construct"; break; }
                case 4: case 14: { int k = c.rng.below(World::NO); Obj& t = w.o[k]; if(!t.l || k == oi) break; c.op("o%d = move(o%d)", k, oi); if(t.own) { w.rel(t.m); VF_EV("move over an owner"); } **t.l = std::move(l); t.m = b.m; t.own = b.own; b.m = -1; b.own = false; VF_EV("moved to another object"); what = "move assign"; break; }
                case 5: case 15: { bool thrown = false; c.op("exception through a scope holding o%d", oi); UL* in = &l; try { UL t(std::move(*in)); VF_REQ(t.owns_lock() == b.own, "moved lock lost ownership"); throw 7; } catch(int) { thrown = true; } VF_REQ(thrown, "?"); if(b.own) w.rel(mi); b.own = false; b.m = -1; VF_EV("scopes left by exception"); what = "unwind"; break; }
            }
        }
        else if(op >= 12)
        {
            if(w.orphan[mi]) { c.op("m%d.unlock by hand", mi); m.unlock(); w.rel(mi); w.orphan[mi] = false; VF_EV("orphans unlocked"); what = "manual unlock"; }
            else if(!w.held[mi])
            {
                c.op("guard m%d", mi); w.acq(mi);
                if(c.rng.coin()) { estd::lock_guard<Mon> g(m); w.check("inside a guard"); }
                else { try { estd::lock_guard<Mon> g(m); w.check("inside a guard"); throw 1; } catch(int) {} VF_EV("guards left by exception"); }
                w.rel(mi); VF_EV("guards"); what = "guard";
            }
        }
        w.check(what);
        uint64_t st = 0; for(auto& x : w.o) st = st * 16 + (x.l ? 1 + (x.m + 1) * 2 + x.own : 0); for(bool h : w.held) st = st * 2 + h; c.state(st);
    }
    for(auto& b : w.o) { w.drop(b); w.check("final destruction"); }
    for(int i = 0; i < World::NM; i++) { if(w.orphan[i]) { w.m[i].unlock(); w.rel(i); } VF_REQ(!w.m[i].held, "mutex %d leaked", i); }
}
VF_GROUP_W(guards, 20)
{
    c.nt();
    Basic b; unsigned n = 1 + c.rng.below(20); c.mark(n); c.op("%u guarded scopes", n);
    for(unsigned i = 0; i < n; i++)
    {
        bool early = c.rng.coin(), thr = c.rng.chance(1, 4), uniq = c.rng.coin(); c.mark(early + 2 * thr + 4 * uniq);
        unsigned l0 = b.m.locks;
        auto body = [&]() { if(uniq) { estd::unique_lock<Basic> g(b); VF_REQ(b.m.held, "not locked inside the scope"); if(early) { g.unlock(); VF_REQ(!b.m.held, "unlock"); if(c.rng.coin()) { g.lock(); VF_REQ(b.m.held, "relock"); } } if(thr) throw 3; }
                            else { estd::lock_guard<Basic> g(b); VF_REQ(b.m.held, "not locked inside the scope"); if(thr) throw 3; if(early) return; } };
        bool t = false; try { body(); } catch(int) { t = true; }
        VF_REQ(t == thr, "?"); VF_REQ(!b.m.held && !b.m.err, "scope left with the mutex %s", b.m.err ? b.m.err : "held"); VF_REQ(b.m.locks == b.m.unlocks && b.m.locks > l0, "acquired %u released %u", b.m.locks, b.m.unlocks);
        // a refusing mutex must not be released
        if(c.rng.chance(1, 5)) { b.m.throws = true; unsigned u = b.m.unlocks; bool rt = false; try { estd::lock_guard<Basic> g(b); } catch(Refused&) { rt = true; } b.m.throws = false; VF_REQ(rt && b.m.unlocks == u, "a refused lock was released"); VF_EV("refused guards"); }
        VF_EV("guarded scopes");
    }
}
