#include "d_unordered.h"
// ---- sets
namespace {
template <class K, unsigned N, class H> void set_hist(Ctx& c)
{
    typedef estd::layer1::unordered_set<K, N, H> M; Boxed<M> bm; M& m = *bm; const M& cm = m; std::set<int> ref; bool overfull = false; unsigned erased = 0, reused = 0;
    int u = (int)c.rng.range(3, N > 64 ? 90 : 24); c.op("layer1::unordered_set<%u>, universe %d", N, u);
    auto bucket = [&](int k) { return (unsigned)cm.bucket(Key<K>::of(k)); };
    auto held = [&](unsigned b) { unsigned n = 0; for(int k : ref) n += bucket(k) == b; return n; };
    auto verify = [&] {
        VF_EQ((size_t)cm.size(), ref.size(), "size"); VF_EQ((bool)cm.empty(), ref.empty(), "empty");
        std::set<int> got; unsigned seen = 0; for(auto it = cm.begin(); it != cm.end(); ++it) { VF_REQ(++seen <= N, "iteration does not end"); got.insert(Key<K>::no(*it)); }
        VF_REQ(got == ref && seen == ref.size(), "iteration visits %u of %zu keys (or wrong ones)", seen, ref.size());
        for(int k = 0; k <= u; ++k) { VF_EQ((bool)cm.contains(Key<K>::of(k)), k && ref.count(k), "contains"); if(k) VF_EQ((size_t)cm.count(Key<K>::of(k)), ref.count(k), "count"); if(ref.count(k)) VF_EV("lookup hit"); else VF_EV("lookup miss"); }
        std::set<unsigned> bs; for(int k = 1; k <= u; ++k) bs.insert(bucket(k));
        for(unsigned b : bs) { unsigned n = 0; for(auto it = cm.begin(b); it != cm.end(b); ++it) VF_REQ(++n <= N, "bucket iteration does not end"); VF_EQ(n, held(b), "bucket iteration"); n = 0; for(auto it = cm.cbegin(b); it != cm.cend(b);) { VF_REQ(++n <= N, "bucket iteration does not end"); int k = Key<K>::no(*it); auto was = it++; VF_EQ(Key<K>::no(*was), k, "it++ of a bucket iterator"); } VF_EQ(n, held(b), "bucket iteration"); }
        uint64_t h = 1; for(int k : ref) h = mix(h ^ k); c.mark(h); c.state(h);
    };
    verify();
    for(unsigned s = 10 + (unsigned)c.rng.below(60); s > 0; --s)
    {
        int k = (int)c.rng.range(c.rng.chance(1, 30) ? 0 : 1, u); const K key = Key<K>::of(k);
        if(c.rng.below(5) < 3)
        {
            c.op("insert(%d)", k); bool had = ref.count(k), fit = N % M::bucket_depth == 0 && !overfull && held(bucket(k)) < M::bucket_depth; auto r = m.insert(key);
            if(k == 0) { VF_REQ(!r.second, "insert of the null key succeeded"); VF_EV("null key"); }
            else if(had) { VF_REQ(!r.second, "insert reported a duplicate as inserted"); VF_EQ(Key<K>::no(*r.first), k, "entry returned"); VF_EV("duplicate refused"); }
            else if(r.second) { VF_EQ(Key<K>::no(*r.first), k, "entry returned"); ref.insert(k); if(held(bucket(k)) > M::bucket_depth) overfull = true; reused += erased > 0; VF_EV("set inserted"); }
            else { VF_REQ(!fit, "insert(%d) refused although its bucket holds %u of %u", k, held(bucket(k)), M::bucket_depth); VF_EV("refused"); }
        }
        else { c.op("erase(%d)", k); size_t n = k && ref.count(k); VF_EQ((size_t)m.erase(key), n, "erase result"); if(n) { ref.erase(k); ++erased; VF_EV("set erased"); } }
        verify();
    }
    // equality does not depend on the order of insertion
    if(!overfull && N % M::bucket_depth == 0)
    {
        Boxed<M> other; std::vector<int> v(ref.begin(), ref.end()); for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.rng.below(i)]);
        for(int k : v) VF_REQ(other->insert(Key<K>::of(k)).second, "insert into fresh set");
        VF_REQ(m == *other && *other == m, "sets with equal keys compare unequal"); VF_EV("equal compared");
        if(v.size()) { other->erase(Key<K>::of(v[0])); VF_REQ(!(m == *other) && !(*other == m), "sets with different keys compare equal");
            int k = 0; for(int i = 1; i <= u; ++i) if(!ref.count(i) && held(bucket(i)) < M::bucket_depth) k = i;
            if(k && other->insert(Key<K>::of(k)).second) VF_REQ(!(m == *other) && !(*other == m), "sets with different keys compare equal"); }
    }
    if(erased && reused) c.nt();
}
}
#define S1(K, N, H, w) VF_REG("set<" #K "," #N "," #H ">", w, set_hist<K, N, H>)
S1(int, 16, estd::hash<int>, 60);
S1(int, 16, HConst, 40);
S1(int, 32, HSpread, 60);
S1(short, 12, HFew, 60);
S1(long long, 10, HId, 40);
S1(OptKey, 16, HId, 40);
S1(int, 256, HSpread, 10);
S1(int, 128, HId, 10);
S1(int, 5, HSpread, 20);
VF_GROUP_W(map_equal, 40)
{
    typedef estd::layer1::unordered_map<int, int, 24, HSpread> M; Boxed<M> a, b; std::vector<int> in; std::map<unsigned, unsigned> held;
    for(size_t n = c.rng.below(16); n > 0; --n) { int k = (int)c.rng.range(1, 40); bool had = false; for(int x : in) had |= x == k; if(!had && held[a->bucket(k)]++ < M::bucket_depth) in.push_back(k); }
    for(int k : in) { c.mark(k); VF_REQ(a->insert({k, k}).second, "insert"); }
    for(size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[c.rng.below(i)]);
    for(int k : in) VF_REQ(b->insert({k, k}).second, "insert");
    VF_REQ(*a == *b && *b == *a, "maps with equal entries compare unequal"); VF_EV("equal compared");
    if(in.size()) { b->erase(in[0]); VF_REQ(!(*a == *b) && !(*b == *a), "maps with different keys compare equal"); c.nt(); }
}
