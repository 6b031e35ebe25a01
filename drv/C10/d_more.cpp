#include "d_variant.h"
#include <memory>
using namespace opt;
VAR("<std::string,std::vector<int>,Tracked,Quiet,int>", 50, COPY | UNIQUE, std::string, std::vector<int>, Tracked, Quiet, int);
VAR("<char,Wide,Tracked>", 50, COPY | UNIQUE, char, Wide, Tracked);
VAR("<Strict,std::string>", 50, CONVERT | COPY | UNIQUE, Strict, std::string);
VAR("<int,Uniq>", 60, CONVERT | DEFAULT | UNIQUE, int, Uniq);
VAR("<Uniq,Tracked,Uniq>", 40, 0, Uniq, Tracked, Uniq);
namespace { struct Boom {}; struct Bomb { static VF_TLS int fuse; Tracked t; static void tick() { if(fuse >= 0 && fuse-- == 0) throw Boom(); } Bomb(int v) : t(v) { tick(); } Bomb(const Bomb& o) : t(o.t) { tick(); } Bomb& operator=(const Bomb& o) { tick(); t = o.t; return *this; } }; VF_TLS int Bomb::fuse = -1; }
// construction that throws: the variant either keeps its old alternative or is valueless, and nothing leaks
VF_GROUP_W(exceptions, 80)
{
    Ledger::reset(); Bomb::fuse = -1; unsigned threw = 0;
    {
        typedef estd::variant<Tracked, Bomb, const char*> V; Boxed<V> a(estd::in_place_index_t<0>(), 5), b(estd::in_place_index_t<1>(), 6); int ia = 0, va = 5;
        for(unsigned s = 6 + (unsigned)c.rng.below(24); s > 0; --s)
        {
            int v = (int)c.rng.range(1, 99), op = (int)c.rng.below(5); bool boom = false; Bomb src(v); int was = ia, wv = va; int fuse = c.rng.coin() ? 0 : -1;
            c.op("op %d value %d fuse %d", op, v, fuse); Bomb::fuse = fuse;
            try { switch(op) { case 0: a->emplace<1>(v); ia = 1; va = v; break; case 1: a->emplace<Bomb>(src); ia = 1; va = v; break; case 2: *a = src; ia = 1; va = v; break; case 3: *a = (const V&)*b; ia = 1; va = 6; break; default: Bomb::fuse = -1; a->emplace<0>(v); ia = 0; va = v; } }
            catch(const Boom&) { boom = true; ++threw; VF_EV("thrown"); }
            Bomb::fuse = -1;
            if(boom) { if(a->valueless_by_exception()) ia = -1; else { ia = was; va = wv; VF_EQ((int)a->index(), ia, "index after an exception"); } }
            VF_EQ((long)(a->valueless_by_exception() ? -1 : (long)a->index()), (long)ia, "index");
            if(ia == 0) VF_EQ(estd::get<0>(*a).get(), va, "value"); if(ia == 1) VF_EQ(estd::get<1>(*a).t.get(), va, "value");
            VF_LEDGER(2 + (ia >= 0)); c.mark(va * 3 + ia);
        }
    }
    VF_LEDGER(0); if(threw) c.nt();
}
namespace { struct Sly { static VF_TLS int fuse; Tracked t; static void tick() { if(fuse >= 0 && fuse-- == 0) throw Boom(); } Sly(int v) : t(v) { tick(); } Sly(const Sly& o) : t(o.t) { tick(); } Sly(Sly&& o) noexcept : t(std::move(o.t)) {} Sly& operator=(const Sly& o) { tick(); t = o.t; return *this; } Sly& operator=(Sly&& o) noexcept { t = std::move(o.t); return *this; } }; VF_TLS int Sly::fuse = -1;
struct Pack { std::string s; Tracked t; Sly b; Pack(const std::string& s, int v) : s(s), t(v), b(v) {} };
struct Kid; typedef estd::variant<std::string, Kid> Tree; struct Kid { int v; std::shared_ptr<Tree> p; }; }
// assigning from something inside of the held alternative, and a failed conversion to a movable type leaving the variant alone
VF_GROUP_W(own_content, 80)
{
    Ledger::reset(); Sly::fuse = -1;
    {
        typedef estd::variant<Pack, std::string, Sly> V; int v = (int)c.rng.range(1, 99), i = 0, live = 2; std::string s(1 + c.rng.below(60), (char)('a' + c.rng.below(26))); Boxed<V> a(estd::in_place_index_t<0>(), s, v);
        for(unsigned n = 3 + (unsigned)c.rng.below(20); n > 0; --n)
        {
            int op = (int)c.rng.below(6); c.op("op %d holding %d", op, i); bool boom = false;
            try { switch(op)
            {
                case 0: a->emplace<0>(s, v); i = 0; live = 2; break;
                case 1: if(i == 0) { *a = estd::get<0>(*a).s; i = 1; live = 0; VF_EV("assigned own content"); } break;
                case 2: if(i == 0) { *a = (const Sly&)estd::get<0>(*a).b; i = 2; live = 1; VF_EV("assigned own content"); } break;
                case 3: if(i == 1) { *a = estd::get<1>(*a); VF_EV("assigned own content"); } if(i == 2) { *a = estd::get<2>(*a); VF_EV("assigned own content"); } break;
                case 4: { const Sly other(v + 1); Sly::fuse = 0; VF_EV("thrown"); *a = other; VF_REQ(false, "exception lost"); }
                default: { const V& self = *a; *a = self; }
            } }
            catch(const Boom&) { boom = true; }
            Sly::fuse = -1; VF_EQ(boom, op == 4, "exception"); VF_EQ((int)a->index(), i, "index");
            if(i == 0) { VF_REQ(estd::get<0>(*a).s == s, "text"); VF_EQ(estd::get<0>(*a).t.get(), v, "value"); VF_EQ(estd::get<0>(*a).b.t.get(), v, "value"); }
            if(i == 1) VF_REQ(estd::get<1>(*a) == s, "text is %s", show(estd::get<1>(*a)).c_str()); if(i == 2) VF_EQ(estd::get<2>(*a).t.get(), v, "value");
            VF_LEDGER(live); c.mark(i * 7 + op);
        }
        std::shared_ptr<Tree> leaf = std::make_shared<Tree>(s); unsigned depth = 1 + (unsigned)c.rng.below(6); for(unsigned d = 0; d < depth; ++d) leaf = std::make_shared<Tree>(Kid{(int)d, leaf});
        Tree t(*leaf); leaf.reset(); for(unsigned d = depth; d-- > 0;) { VF_EQ((int)t.index(), 1, "inner node"); VF_EQ(estd::get<1>(t).v, (int)d, "inner node's value"); t = (const Tree&)*estd::get<1>(t).p; VF_EV("assigned own child"); }
        VF_EQ((int)t.index(), 0, "leaf"); VF_REQ(estd::get<0>(t) == s, "leaf's text"); c.nt();
    }
    VF_LEDGER(0);
}
