// maps and sets with more slots than 8 bits count
#include "d_unordered.h"
#include <unordered_map>
namespace {
template <class K, class T, size_t N, class H> void big(Ctx& c)
{
    typedef estd::layer1::unordered_map<K, T, N, H> M; Ledger::reset(); constexpr bool tr = std::is_same<T, Tracked>::value;
    {
        Boxed<M> m; std::map<int, int> ref; std::unordered_map<unsigned, unsigned> per; int universe = (int)(c.rng.coin() ? N : 2 * N); bool spread = false; c.op("layer1::unordered_map<%zu>, universe %d", N, universe);
        auto bucket = [&](int k) { return (unsigned)m->bucket(Key<K>::of(k)); }; const unsigned depth = M::bucket_depth;
        auto all = [&] {
            VF_EQ((size_t)m->size(), ref.size(), "size"); VF_EQ((size_t)m->max_size(), N, "max_size"); if(tr) VF_LEDGER(ref.size()); std::map<int, int> got; size_t n = 0;
            for(auto it = m->begin(); it != m->end(); ++it) { VF_REQ(++n <= N, "iteration does not end"); VF_REQ(got.insert({Key<K>::no((*it).first), num((*it).second)}).second, "entry visited twice"); }
            VF_REQ(got == ref, "iteration: %zu entries visited, %zu held (or wrong contents)", got.size(), ref.size());
            for(int k = 1; k <= universe; ++k) { auto f = m->find(Key<K>::of(k)); auto r = ref.find(k); VF_EQ(f == m->end(), r == ref.end(), "find"); if(r != ref.end()) VF_EQ(num(f->second), r->second, "value found"); }
            for(auto& p : per) if(c.rng.chance(1, 20)) VF_EQ((size_t)m->bucket_size(p.first), (size_t)p.second, "bucket_size");
            if(ref.size() > 256) VF_EV("map past 8 bits"); c.state(ref.size() * 31 + N); };
        for(int phase = 0; phase < 4; ++phase)
        {
            bool grow = phase % 2 == 0; unsigned steps = (unsigned)(N < 2000 ? N : 2000); if(!grow) steps /= 2;
            for(unsigned s = 0; s < steps; ++s)
            {
                int k = (int)c.rng.range(1, universe), v = (int)c.rng.range(1, 9999); const K key = Key<K>::of(k); unsigned bk = bucket(k); bool had = ref.count(k) != 0;
                if(c.rng.chance(grow ? 9 : 3, 10))
                {
                    auto r = c.rng.coin() ? m->insert({key, Make<T>::of(v)}) : m->emplace(key, Make<T>::of(v));
                    if(had) { VF_REQ(!r.second, "insertion of %d, already present", k); auto it = r.first; VF_EQ(Key<K>::no(it->first), k, "entry returned for a duplicate"); }
                    else if(r.second) { auto it = r.first; VF_EQ(Key<K>::no(it->first), k, "entry returned"); ref[k] = v; if(++per[bk] > depth) spread = true; }
                    else { VF_REQ(N % depth != 0 || spread || per[bk] >= depth, "insertion of %d refused although its bucket holds %u of %u", k, per[bk], depth); VF_EV("refused"); }
                }
                else { VF_EQ((size_t)m->erase(key), (size_t)had, "erase result"); if(had) { ref.erase(k); --per[bk]; } }
                VF_EQ((bool)m->contains(key), ref.count(k) != 0, "contains");
            }
            c.op("%zu held", ref.size()); all(); c.mark(ref.size());
        }
        if(c.rng.coin()) { size_t n = 0; for(auto it = m->begin(); it != m->end();) { VF_REQ(n++ <= N, "iteration does not end"); int k = Key<K>::no(it->first); if(k % 3 == 0) { it = m->erase(it); ref.erase(k); --per[bucket(k)]; } else ++it; } all(); }
        m->clear(); ref.clear(); per.clear(); all(); c.nt();
    }
    if(tr) VF_LEDGER(0);
}
template <size_t N> void bigset(Ctx& c)
{
    typedef estd::layer1::unordered_set<int, N, HSpread> S; Boxed<S> s; std::set<int> ref; c.op("layer1::unordered_set<%zu>", N);
    for(unsigned i = 0; i < 2 * N; ++i) { int k = (int)c.rng.range(1, 3 * (int)N); if(c.rng.chance(4, 5)) { auto r = s->insert(k); if(ref.count(k)) VF_REQ(!r.second, "insertion of %d, already present", k); else if(r.second) ref.insert(k); } else { VF_EQ((size_t)s->erase(k), ref.count(k), "erase result"); ref.erase(k); } VF_EQ((size_t)s->size(), ref.size(), "size"); }
    std::set<int> got; size_t n = 0; for(auto it = s->begin(); it != s->end(); ++it) { VF_REQ(++n <= N, "iteration does not end"); got.insert(*it); } VF_REQ(got == ref, "iteration: %zu keys, %zu held", got.size(), ref.size());
    for(int k = 1; k <= 3 * (int)N; ++k) VF_EQ((bool)s->contains(k), ref.count(k) != 0, "contains"); if(ref.size() > 256) VF_EV("set past 8 bits"); c.mark(hash_bytes(&n, sizeof n)); c.nt();
}
}
VF_REG("map<int,int,512>", 3, big<int, int, 512, estd::hash<int> >); VF_REG("map<int,tracked,1000>", 2, big<int, Tracked, 1000, HSpread>); VF_REG("map<short,u16,320>", 3, big<short, unsigned short, 320, HId>); VF_REG("map<int,rec,4096>", 1, big<int, Rec, 4096, HSpread>);
VF_REG("set<600>", 3, bigset<600>);
