#include "d_optional.h"
#include <memory>
using namespace opt;
namespace opt { bool operator==(const Strict& a, const Strict& b) { return a.t == b.t; } bool operator!=(const Strict& a, const Strict& b) { return a.t != b.t; } }
OPT("optional<Strict>", estd::optional<Strict>, Strict, NONE, 1, 50, EMPLACE | REFS | ASSIGNINT, 60);
OPT("optional<std::string>", estd::optional<std::string>, std::string, NONE, 1, 50, ORDERED | EMPLACE | REFS, 60);
OPT("optional<std::vector>", estd::optional<std::vector<int>>, std::vector<int>, NONE, 1, 50, EMPLACE | REFS, 60);
// ---- exceptions leave a well defined state
namespace {
struct Boom {};
struct Bomb { static VF_TLS int fuse; Tracked t; static void tick() { if(fuse >= 0 && fuse-- == 0) throw Boom(); }
    Bomb(int v) : t(v) { tick(); } Bomb(const Bomb& o) : t(o.t) { tick(); } Bomb(Bomb&& o) : t(std::move(o.t)) { tick(); }
    Bomb& operator=(const Bomb& o) { tick(); t = o.t; return *this; } Bomb& operator=(Bomb&& o) { tick(); t = std::move(o.t); return *this; } };
VF_TLS int Bomb::fuse = -1;
}
VF_GROUP_W(exceptions, 80)
{
    Ledger::reset(); Bomb::fuse = -1; unsigned threw = 0;
    {
        typedef estd::optional<Bomb> O; Boxed<O> a, b; int ma = NONE, mb = NONE;
        for(unsigned s = 10 + (unsigned)c.rng.below(30); s > 0; --s)
        {
            int v = (int)c.rng.range(1, 99), was = ma, op = (int)c.rng.below(6); Bomb src(v); int fuse = c.rng.coin() ? (int)c.rng.below(2) : -1; bool boom = false;
            c.op("op %d value %d fuse %d", op, v, fuse);
            Bomb::fuse = fuse;
            try { switch(op) { case 0: a->emplace(v); break; case 1: *a = src; break; case 2: *a = Bomb(v); break; case 3: *a = (const O&)*b; break; case 4: { O t((const O&)*b); (void)t; break; } default: a->emplace(src); } }
            catch(const Boom&) { boom = true; ++threw; VF_EV("thrown"); }
            Bomb::fuse = -1;
            if(op == 4) ;
            else if(!boom) ma = op == 3 ? mb : v;
            else if(op == 0 || op == 5) { VF_REQ(!a->has_value(), "engaged after emplace threw"); ma = NONE; }
            else ma = was;      // strong: assignment of Bomb does not change its target when it throws
            VF_EQ(a->has_value(), ma != NONE, "engaged"); if(ma != NONE) VF_EQ((**a).t.get(), ma, "value");
            long live = 1 + (ma != NONE) + (mb != NONE); VF_LEDGER(live);
            if(c.rng.chance(1, 4)) { a->reset(); ma = NONE; } if(c.rng.chance(1, 4)) { if(c.rng.coin()) { b->emplace(v); mb = v; } else { b->reset(); mb = NONE; } }
            c.mark((uint64_t)ma * 31 + mb);
        }
    }
    VF_LEDGER(0); if(threw) c.nt();
}
VF_GROUP_W(move_only, 60)
{
    typedef std::unique_ptr<Tracked> U; typedef estd::optional<U> O; Ledger::reset();
    {
        Boxed<O> a, b; int ma = NONE, mb = NONE;
        for(unsigned s = 6 + (unsigned)c.rng.below(20); s > 0; --s)
        {
            int v = (int)c.rng.range(1, 99); 
            switch(c.rng.below(6))
            {
                case 0: c.op("a = unique %d", v); *a = U(new Tracked(v)); ma = v; break;
                case 1: c.op("a.emplace(%d)", v); a->emplace(new Tracked(v)); ma = v; break;
                case 2: if(mb == -2) break; c.op("a = move b"); *a = std::move(*b); ma = mb; if(mb != NONE) mb = -2; VF_EV("move only moved"); break;
                case 3: if(mb == -2) break; { c.op("construct from move b"); O t(std::move(*b)); VF_EQ(t.has_value(), mb != NONE, "engaged"); if(mb != NONE) { VF_EQ((*t)->get(), mb, "moved value"); VF_REQ(!*b || !**b, "source still owns"); mb = -2; } break; }
                case 4: c.op("b = %d", v); b->emplace(new Tracked(v)); mb = v; break;
                default: c.op("a.reset()"); a->reset(); ma = NONE;
            }
            VF_EQ(a->has_value(), ma != NONE, "engaged"); if(ma > 0) VF_EQ((**a)->get(), ma, "value"); if(mb > 0) VF_EQ((**b)->get(), mb, "value");
            VF_LEDGER((ma > 0) + (mb > 0)); c.mark((uint64_t)ma * 31 + mb);
        }
        c.nt();
    }
    VF_LEDGER(0);
}
