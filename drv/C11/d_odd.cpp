#include "d_expected.h"
#include <memory>
using namespace opt;
EXP("<Strict,Quiet>", 60, COPY | FROMINT | ERRINT, Strict, Quiet);
EXP("<Uniq,int>", 60, DEFAULT | ERRINT, Uniq, int);
EXP("<Uniq,std::string>", 60, DEFAULT, Uniq, std::string);
EXP("<std::string,Uniq>", 60, DEFAULT, std::string, Uniq);
EXP("<Wide,Tracked>", 40, COPY | FROMINT | ERRINT, Wide, Tracked);
namespace { struct Boom {}; struct Bomb { static VF_TLS bool armed; Tracked t; Bomb(int v) : t(v) { if(armed) throw Boom(); } Bomb(const Bomb& o) : t(o.t) { if(armed) throw Boom(); } Bomb& operator=(const Bomb&) = default; }; VF_TLS bool Bomb::armed = false; }
// a value whose construction throws while it replaces an error: the error must not be destroyed twice
VF_PROBE(expected_throwing_switch)
{
    Ledger::reset();
    { estd::expected<Bomb, Tracked> x(estd::unexpect_t(), 5); Bomb b(7); Bomb::armed = true; bool threw = false; try { x = b; } catch(const Boom&) { threw = true; } Bomb::armed = false; VF_REQ(threw, "exception lost"); VF_EQ((bool)x.has_value(), false, "has_value after a failed assignment"); VF_LEDGER(2); VF_EQ(x.error().get(), 5, "error after a failed assignment"); }
    VF_LEDGER(0);
}
namespace { struct Sly { static VF_TLS int fuse; Tracked t; static void tick() { if(fuse >= 0 && fuse-- == 0) throw Boom(); } Sly(int v) : t(v) { tick(); } Sly(const Sly& o) : t(o.t) { tick(); } Sly(Sly&& o) noexcept : t(std::move(o.t)) {} Sly& operator=(const Sly& o) { tick(); t = o.t; return *this; } Sly& operator=(Sly&& o) noexcept { t = std::move(o.t); return *this; } }; VF_TLS int Sly::fuse = -1;
struct Pack { std::string s; Tracked t; Sly b; Pack(const std::string& s, int v) : s(s), t(v), b(v) {} };
struct Kid; typedef estd::expected<std::string, Kid> Tree; struct Kid { int v; std::shared_ptr<Tree> p; }; }
// assigning from something inside of the held value or error, and a failed construction of a movable type leaving the expected alone
VF_GROUP_W(own_content, 80)
{
    Ledger::reset(); Sly::fuse = -1;
    {
        typedef estd::expected<Pack, std::string> A; typedef estd::expected<std::string, Pack> B; typedef estd::expected<Sly, Pack> C;
        int v = (int)c.rng.range(1, 99); std::string s(1 + c.rng.below(60), (char)('a' + c.rng.below(26)));
        switch(c.rng.below(5))
        {
            case 0: { c.op("error from own value"); Boxed<A> a{Pack(s, v)}; *a = estd::unexpected<std::string>((*a)->s); VF_EQ((bool)a->has_value(), false, "has_value"); VF_REQ(a->error() == s, "error"); VF_LEDGER(0); VF_EV("assigned own content"); break; }
            case 1: { c.op("value from own error"); Boxed<B> b(estd::unexpect_t(), s, v); *b = b->error().s; VF_EQ((bool)b->has_value(), true, "has_value"); VF_REQ(**b == s, "value"); VF_LEDGER(0); *b = **b; VF_REQ(**b == s, "value"); VF_EV("assigned own content"); break; }
            case 2: { c.op("tracked value from own error"); Boxed<C> b(estd::unexpect_t(), s, v); *b = (const Sly&)b->error().b; VF_EQ((bool)b->has_value(), true, "has_value"); VF_EQ((*b)->t.get(), v, "value"); VF_LEDGER(1); VF_EV("assigned own content"); break; }
            case 3: { c.op("failed switch to a value"); Boxed<C> b(estd::unexpect_t(), s, v); bool boom = false; { const Sly other(v + 1); Sly::fuse = 0; try { *b = other; } catch(const Boom&) { boom = true; } } Sly::fuse = -1; VF_EV("thrown");
                VF_EQ(boom, true, "exception"); VF_EQ((bool)b->has_value(), false, "has_value after a failed assignment"); VF_REQ(b->error().s == s, "error after a failed assignment"); VF_EQ(b->error().t.get(), v, "error after a failed assignment"); VF_LEDGER(2); break; }
            default: { std::shared_ptr<Tree> leaf = std::make_shared<Tree>(s); unsigned depth = 1 + (unsigned)c.rng.below(6); for(unsigned d = 0; d < depth; ++d) leaf = std::make_shared<Tree>(estd::unexpect_t(), Kid{(int)d, leaf}); c.op("depth %u", depth);
                Tree t(*leaf); leaf.reset(); for(unsigned d = depth; d-- > 0;) { VF_EQ((bool)t.has_value(), false, "inner node"); VF_EQ(t.error().v, (int)d, "inner node's value"); t = (const Tree&)*t.error().p; VF_EV("assigned own child"); }
                VF_EQ((bool)t.has_value(), true, "leaf"); VF_REQ(*t == s, "leaf's text"); }
        }
        c.mark(hash_bytes(s.data(), s.size()) ^ v); c.nt();
    }
    VF_LEDGER(0);
}
