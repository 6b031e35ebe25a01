#include "vectors_impl.h"
VF_REG("heap<int>", 80, history<VH<int>>);
VF_REG("heap<tri>", 50, history<VH<Tri>>);
VF_REG("heap<tracked>", 100, history<VH<Tracked>>);
// initializer lists
VF_GROUP_W(initlist, 20)
{
    Ledger::reset();
    { int a = (int)c.rng.below(100), b = (int)c.rng.below(100), d = (int)c.rng.below(100);
      c.op("{%d,%d,%d}", a, b, d);
      estd::layer1::vector<Tracked, 5> v{Tracked(a), Tracked(b), Tracked(d)}; VF_LEDGER(3);
      VF_REQ(v.size() == 3 && num((const Tracked&)v[0]) == a && num((const Tracked&)v[1]) == b && num((const Tracked&)v[2]) == d, "initializer list content");
      c.nt(); c.mark(a * 10000 + b * 100 + d); }
    VF_LEDGER(0);
}
// recorded finding: dropping a heap-backed vector
VF_PROBE(heap_vector_drop)
{
    Ledger::reset();
    { estd::vector<Tracked, HeapAlloc<Tracked>> v; v.emplace_back(1); v.emplace_back(2); c.op("drop a heap vector of 2"); }
    long live = Ledger::live; size_t blocks = heap_blocks().size();
    for(auto& b : heap_blocks()) for(size_t i = 0; i + sizeof(Tracked) <= b.second && i < 2 * sizeof(Tracked); i += sizeof(Tracked)) ((Tracked*)((char*)b.first + i))->~Tracked();
    heap_release_all();
    VF_REQ(live == 0 && blocks == 0, "%ld elements and %zu blocks survive the vector that held them", live, blocks);
}
VF_REG("inline<fixed>", 50, history<V1<Fixed, 12>>);
VF_REG("wrapped<fixed>", 30, history<V3<Fixed>>);
VF_REG("heap<fixed>", 30, history<VH<Fixed>>);
// equality of vectors of different kinds and capacities
template <class A, class B> void same(Ctx& c)
{
    std::vector<int> x; for(size_t n = c.rng.below(12); n > 0; --n) x.push_back((int)c.rng.below(3)); std::vector<int> y = x; Ledger::reset();
    {
        A pa(c); B pb(c); auto& a = pa.v(); auto& b = pb.v();
        switch(c.rng.below(6)) { case 0: break; case 1: if(y.size()) y[c.rng.below(y.size())] ^= 4; break; case 2: if(y.size()) y.pop_back(); break; case 3: y.push_back(1); break; case 4: y.insert(y.end(), 256, 7); break; default: y.insert(y.begin(), 256, 7); }
        if(x.size() > pa.cap || y.size() > pb.cap) return;
        if(A::kind == 4 && x.empty()) x.push_back(1), y.insert(y.begin(), 1); if(B::kind == 4 && y.empty()) y.push_back(1);
        for(int v : x) a.emplace_back(v); for(int v : y) b.emplace_back(v);
        c.op("compare %s with %zu elements", show(x).c_str(), y.size());
        VF_EQ((bool)(a == b), x == y, "left == right"); VF_EQ((bool)(b == a), x == y, "right == left"); VF_EQ((bool)(a == a), true, "equal to itself");
        VF_EV(x == y ? "equal vectors" : y.size() > x.size() + 255 ? "much longer" : "different vectors"); a.clear(); b.clear(); c.nt(); c.mark(hash_bytes(x.data(), x.size() * sizeof(int)) + y.size() * 31 + (x == y));
    }
    VF_LEDGER(0);
}
typedef V1<int, 16> I16; typedef V1<int, 600> I600; typedef V3<int> W; typedef VH<int> H; typedef V1<Tri, 16> T16; typedef V3<Tri> T3;
VF_REG("equality", 30, same<I16, I600>); VF_REG("equality wrapped", 20, same<I16, W>); VF_REG("equality heap", 20, same<I16, H>); VF_REG("equality struct", 20, same<T16, T3>); VF_REG("equality same", 10, same<I16, I16>);
