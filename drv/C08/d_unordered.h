#pragma once
#include "vf.h"
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/optional.h>
#include <estd/string.h>
#include <map>
#include <set>
#include <vector>
using namespace vf;
namespace {
// ---- values
struct Rec { int a; short b; int c; Rec() : a(0), b(0), c(0) {} Rec(int v) : a(v), b((short)(v >> 3)), c(~v) {} };
typedef estd::layer1::string<16> Str;
int num(int v) { return v; }
int num(unsigned short v) { return v; }
int num(long long v) { return (int)(v >> 20); }
int num(const Rec& r) { return r.a == 0 && r.c == 0 ? 0 : (r.c == ~r.a && r.b == (short)(r.a >> 3)) ? r.a : -555; }
int num(const Tracked& t) { return t.get(); }
int num(const Str& s) { int v = 0; for(char ch : s) { if(ch < '0' || ch > '9') return -444; v = v * 10 + (ch - '0'); } return v; }
template <class T> struct Make { static T of(int v) { return T(v); } };
template <> struct Make<long long> { static long long of(int v) { return (long long)v << 20; } };
template <> struct Make<Str> { static Str of(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return Str(b); } };
// ---- keys: key k of the universe (k >= 1 valid, k == 0 is the null key)
template <class K> struct Key { static K of(int k) { return (K)k; } static int no(const K& k) { return (int)k; } };
template <> struct Key<long long> { static long long of(int k) { return (long long)k << 33; } static int no(long long k) { return (int)(k >> 33); } };
typedef estd::layer1::optional<uint16_t, 0xFFFF> OptKey;
template <> struct Key<OptKey> { static OptKey of(int k) { return k == 0 ? OptKey() : OptKey((uint16_t)(k - 1)); } static int no(const OptKey& k) { return k.has_value() ? k.value() + 1 : 0; } };
// ---- hashes
struct HConst { template <class K> unsigned operator()(const K&) const { return 3; } };
struct HZero { template <class K> unsigned operator()(const K&) const { return 0; } };
struct HFew { template <class K> unsigned operator()(const K& k) const { return (unsigned)Key<K>::no(k) % 3; } };
struct HSpread { template <class K> unsigned operator()(const K& k) const { return (unsigned)(mix((uint64_t)Key<K>::no(k)) >> 40); } };
struct HId { template <class K> unsigned operator()(const K& k) const { return (unsigned)Key<K>::no(k); } };
struct HLast { template <class K> unsigned operator()(const K&) const { return 15; } };

template <class M, class K, class T, size_t N> struct History
{
    Ctx& c; M& m; std::multimap<int, int> ref; std::map<unsigned, unsigned> held; bool overfull = false; int universe; bool dups;
    static constexpr bool tr = std::is_same<T, Tracked>::value;
    static constexpr unsigned depth = M::bucket_depth;
    std::map<int, const void*> where;       // address of each uniquely held entry
    unsigned erased = 0, refused = 0, reused = 0;
    History(Ctx& c_, M& m_, int u, bool d) : c(c_), m(m_), universe(u), dups(d) {}
    unsigned bucket(int k) const { return (unsigned)m.bucket(Key<K>::of(k)); }
    unsigned in_bucket(unsigned b) const { unsigned n = 0; for(auto& e : ref) if(bucket(e.first) == b) ++n; return n; }
    bool must_fit(int k) const { return N % depth == 0 && !overfull && in_bucket(bucket(k)) < depth; }
    void added(int k, int v) { ref.insert({k, v}); if(in_bucket(bucket(k)) > depth) overfull = true; if(ref.size() == N) VF_EV("table full"); VF_EV("inserted"); }
    std::multiset<int> values(int k) const { std::multiset<int> r; auto p = ref.equal_range(k); for(auto i = p.first; i != p.second; ++i) r.insert(i->second); return r; }

    void verify(bool moved_ok)
    {
        VF_EQ((size_t)m.size(), ref.size(), "size"); VF_EQ((bool)m.empty(), ref.empty(), "empty"); VF_EQ((size_t)m.max_size(), N, "max_size");
        if(tr) VF_LEDGER(ref.size());
        const M& cm = m;
        std::multimap<int, int> got; unsigned budget = (unsigned)N + 2;
        for(auto it = m.begin(); it != m.end(); ++it) { VF_REQ(budget-- > 0, "iteration does not end"); got.insert({Key<K>::no((*it).first), num((*it).second)}); }
        std::multiset<std::pair<int, int>> a(got.begin(), got.end()), b(ref.begin(), ref.end());
        VF_REQ(a == b, "iteration: %zu entries visited, %zu held (or wrong contents)", a.size(), b.size());
        std::map<int, const void*> now;
        for(int k = 0; k <= universe; ++k)
        {
            const K key = Key<K>::of(k); size_t n = k == 0 ? 0 : ref.count(k);
            VF_EQ((bool)cm.contains(key), n > 0, "contains");
            if(k) VF_EQ((size_t)cm.count(key), n, "count");
            auto f = cm.find(key); auto g = m.find(key);
            VF_EQ(f == cm.end(), n == 0, "find"); VF_EQ(g == cm.end(), n == 0, "find");
            VF_EQ(f != cm.end(), n != 0, "find"); 
            if(n) { VF_EQ(Key<K>::no(f->first), k, "key found"); int v = num(f->second); VF_REQ(values(k).count(v), "find(%d) yields %d", k, v); if(n == 1) now[k] = &f->second; VF_EV("lookup hit"); } else VF_EV("lookup miss");
        }
        if(!moved_ok) for(auto& p : now) { auto i = where.find(p.first); if(i != where.end()) VF_REQ(i->second == p.second, "entry %d moved by an operation that keeps references", p.first); }
        where = now;
        std::map<unsigned, std::multiset<int>> per; for(auto& e : ref) per[bucket(e.first)].insert(e.second);
        std::set<unsigned> bs; for(int k = 1; k <= universe; ++k) bs.insert(bucket(k));
        for(unsigned bk : bs)
        {
            std::multiset<int> l; unsigned bud = (unsigned)N + 2;
            for(auto it = cm.begin(bk); it != cm.end(bk); ++it) { VF_REQ(bud-- > 0, "bucket iteration does not end"); l.insert(num((*it).second)); }
            // the mutable iterator, advanced both ways, passes the same entries
            std::multiset<int> l2; bud = (unsigned)N + 2; bool alt = bk & 1;
            for(auto it = m.begin(bk); !(it == m.end(bk)); alt = !alt)
            {
                VF_REQ(bud-- > 0, "bucket iteration does not end");
                if(alt) { typename M::pointer at = it; auto was = it++; VF_REQ(was == at && !(was != at) && it != at, "it++ does not yield where it was"); l2.insert(num((*was).second)); VF_EV("bucket iterator postfix"); }
                else { l2.insert(num((*it).second)); ++it; }
            }
            VF_REQ(l2 == l, "bucket %u: %zu visited by the mutable iterator, %zu by the constant one", bk, l2.size(), l.size());
            VF_REQ(l == per[bk], "bucket %u: %zu visited, %zu held", bk, l.size(), per[bk].size());
            VF_EQ((size_t)m.bucket_size(bk), per[bk].size(), "bucket_size");
        }
        uint64_t h = 0; for(auto& e : ref) h += mix(e.first * 100003ull + e.second); c.state(h); c.mark(h);
    }
    template <class R> void inserted(const char* what, int k, int v, const R& r, bool dup_ok, bool assigned = false)
    {
        bool had = ref.count(k) > 0;
        if(k == 0) { VF_REQ(!r.second, "%s of the null key succeeded", what); VF_EV("null key"); return; }
        if(had && !dup_ok)
        {
            VF_REQ(!r.second, "%s(%d) reported an insertion of a key already present", what, k);
            auto it = r.first; VF_EQ(Key<K>::no(it->first), k, "entry returned for a duplicate"); VF_EV("duplicate refused");
            if(assigned) { ref.erase(k); ref.insert({k, v}); VF_EQ(num(it->second), v, "assigned value"); VF_EV("assigned"); }
            return;
        }
        if(r.second) { auto it = r.first; VF_EQ(Key<K>::no(it->first), k, "entry returned"); VF_EQ(num(it->second), v, "value inserted"); added(k, v); if(had) VF_EV("multi"); if(erased) ++reused; }
        else { VF_REQ(!must_fit(k), "%s(%d) refused although its bucket holds %u of %u", what, k, in_bucket(bucket(k)), depth); ++refused; VF_EV("refused"); }
    }
    void step()
    {
        int k = (int)c.rng.range(c.rng.chance(1, 30) ? 0 : 1, universe), v = (int)c.rng.range(1, 9999); const K key = Key<K>::of(k);
        bool moved = false;
        switch(c.rng.below(16))
        {
            case 0: { c.op("insert(const{%d,%d})", k, v); const typename M::value_type e(key, Make<T>::of(v)); inserted("insert", k, v, m.insert(e), false); break; }
            case 1: { c.op("insert({%d,%d})", k, v); inserted("insert", k, v, m.insert({key, Make<T>::of(v)}), false); break; }
            case 2: { c.op("emplace(%d,%d)", k, v); inserted("emplace", k, v, m.emplace(key, Make<T>::of(v)), false); break; }
            case 3: { c.op("emplace(piecewise %d,%d)", k, v); inserted("emplace", k, v, m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(key), estd::forward_as_tuple(Make<T>::of(v))), false); break; }
            case 4: { c.op("try_emplace(%d,%d)", k, v); inserted("try_emplace", k, v, m.try_emplace(key, Make<T>::of(v)), false); break; }
            case 5: { c.op("try_emplace(%d)", k); inserted("try_emplace", k, 0, m.try_emplace(key), false); break; }
            case 6: if(ref.count(k) > 1) break; { c.op("insert_or_assign(%d,%d)", k, v); inserted("insert_or_assign", k, v, m.insert_or_assign(key, Make<T>::of(v)), false, true); break; }
            case 7: if(!k || ref.count(k) > 1 || (!ref.count(k) && !must_fit(k))) break; { c.op("[%d] = %d", k, v); bool had = ref.count(k); if(!had) { VF_EQ(num(m[key]), 0, "new element of operator[]"); added(k, 0); } m[key] = Make<T>::of(v); ref.erase(k); ref.insert({k, v}); VF_EQ(num(m[key]), v, "operator[]"); VF_EV("subscript"); break; }
            case 8: if(dups) { c.op("insert({%d,%d}, duplicates)", k, v); inserted("insert", k, v, m.insert({key, Make<T>::of(v)}, true), true); } break;
            case 9: case 10:
                c.op("erase(%d)", k); { size_t n = k && ref.count(k); int gone = 0; if(n) gone = num(m.find(key)->second); VF_EQ((size_t)m.erase(key), n, "erase result"); if(n) drop(k, gone); } where.erase(k); break;
            case 11: case 12: { auto it = m.find(key); if(it == m.end()) break; int gone = num(it->second); c.op("erase(iterator at %d,%d)", k, gone); 
                if(c.rng.coin()) { auto nx = it; ++nx; auto r = m.erase(it); VF_REQ(r == nx, "erase returns the next entry"); } else m.erase(it); drop(k, gone); where.erase(k); VF_EV("erase iterator"); break; }
            case 13: { auto it = m.find(key); if(it == m.end()) break; int gone = num(it->second); c.op("erase_and_gc(%d,%d)", k, gone); m.erase_and_gc(it); drop(k, gone); moved = true; VF_EV("erase and gc"); break; }
            case 14: { auto it = m.find(key); if(it == m.end()) break; int val = num(it->second); c.op("gc_active(%d)", k); auto r = m.gc_active(it); VF_EQ(Key<K>::no(r->first), k, "key after gc_active"); VF_EQ(num(r->second), val, "value after gc_active"); if(r != it) VF_EV("gc moved"); moved = true; break; }
            default: if(c.rng.chance(1, 6)) { c.op("clear()"); m.clear(); ref.clear(); overfull = false; where.clear(); VF_EV("cleared"); }
        }
        verify(moved);
    }
    void drop(int k, int v) { auto p = ref.equal_range(k); for(auto i = p.first; i != p.second; ++i) if(i->second == v) { ref.erase(i); break; } ++erased; VF_EV("erased"); }
    // erase while walking
    void sweep()
    {
        c.op("erase while iterating"); unsigned budget = (unsigned)N + 2;
        for(auto it = m.begin(); it != m.end();)
        {
            VF_REQ(budget-- > 0, "iteration does not end"); int k = Key<K>::no(it->first), v = num(it->second);
            if(c.rng.coin()) { it = m.erase(it); drop(k, v); where.erase(k); } else ++it;
        }
        verify(false); VF_EV("erase while iterating");
    }
    void run(unsigned steps)
    {
        verify(true);
        for(unsigned s = 0; s < steps; ++s) step();
        if(c.rng.coin()) { sweep(); for(unsigned s = 0; s < 6; ++s) step(); }
        if(erased && reused) { c.nt(); VF_EV("slot reuse"); }
        m.clear(); ref.clear(); where.clear(); overfull = false; verify(true);
    }
};
template <class K, class T, unsigned N, class H> void l1(Ctx& c)
{
    typedef estd::layer1::unordered_map<K, T, N, H> M; Ledger::reset();
    { Boxed<M> m; int u = (int)c.rng.range(3, N > 64 ? 90 : 24); c.op("layer1::unordered_map<%u>, universe %d", N, u); History<M, K, T, N> h(c, *m, u, c.rng.coin()); h.run(8 + (unsigned)c.rng.below(N > 64 ? 160 : 60)); }
    if(std::is_same<T, Tracked>::value) VF_LEDGER(0);
}
}
#define L1(K, T, N, H, w) VF_REG("l1<" #K "," #T "," #N "," #H ">", w, l1<K, T, N, H>)
