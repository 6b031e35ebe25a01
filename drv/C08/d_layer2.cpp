#include "d_unordered.h"
VF_GROUP_W(layer2, 40)
{
    typedef estd::layer2::unordered_map<int, int, 16> M; Raw<M::control_type> back(16);
    { M m((M::control_type(&)[16]) *back.p); c.op("layer2::unordered_map<16>"); History<M, int, int, 16> h(c, m, (int)c.rng.range(3, 24), c.rng.coin()); h.run(8 + (unsigned)c.rng.below(60)); }
    VF_EV("layer2");
}
VF_GROUP_W(layer2_tracked, 40)
{
    Ledger::reset(); typedef estd::layer2::unordered_map<short, Tracked, 12> M; Raw<M::control_type> back(12);
    { M m((M::control_type(&)[12]) *back.p); c.op("layer2::unordered_map<tracked,12>"); History<M, short, Tracked, 12> h(c, m, (int)c.rng.range(3, 24), c.rng.coin()); h.run(8 + (unsigned)c.rng.below(60)); }
    VF_LEDGER(0);
}
VF_PROBE(unordered_drop)
{
    Ledger::reset();
    { estd::layer1::unordered_map<int, Tracked, 16> m; m.insert({1, Tracked(5)}); m.insert({2, Tracked(6)}); }
    long live = Ledger::live; 
    VF_REQ(live == 0, "%ld mapped values of a dropped map were never destroyed", live);
}
