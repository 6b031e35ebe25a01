#include "vf.h"
#include <estd/map.h>
#include <estd/string.h>
#include <estd/string_view.h>
using namespace vf;
namespace {
template <class K> struct Key { static K of(int i) { return (K)i; } }; 
template <> struct Key<long long> { static long long of(int i) { return (long long)i << 33; } };
struct Two { short a; int b; bool operator==(const Two& o) const { return a == o.a && b == o.b; } };
template <> struct Key<Two> { static Two of(int i) { return Two{ (short)(i & 3), i >> 2 }; } };
typedef estd::layer1::string<12> Str; template <> struct Key<Str> { static Str of(int i) { char b[12]; snprintf(b, sizeof b, "%c%d", 'a' + (i & 1), i >> 1); return Str(b); } };
struct Rec { int a; short b; char c; }; template <class T> struct Val { static T of(int v) { return (T)v; } static int no(const T& v) { return (int)v; } }; template <> struct Val<Rec> { static Rec of(int v) { return Rec{ v, (short)~v, (char)(v * 7) }; } static int no(const Rec& r) { return r.b == (short)~r.a && r.c == (char)(r.a * 7) ? r.a : -99999; } };
template <> struct Val<Tracked> { static Tracked of(int v) { return Tracked(v); } static int no(const Tracked& t) { return t.get(); } };
// keys (with repeats) and values of the model; the first entry with the key answers
template <class M, class K, class T> void lookups(Ctx& c, M& m, std::vector<std::pair<int, int> > model, int universe, const void* lo, const void* hi)
{
    for(int n = 0; n < 40; ++n)
    {
        int k = (int)c.rng.below((uint64_t)universe); int at = -1; for(size_t i = 0; i < model.size() && at < 0; ++i) if(model[i].first == k) at = (int)i;
        T* p = m[Key<K>::of(k)]; c.op("[%d]", k);
        if(at < 0) { VF_REQ(p == nullptr, "found absent key %d", k); VF_EV("absent"); continue; }
        VF_REQ(p != nullptr, "key %d not found", k); VF_REQ((const void*)p >= lo && (const void*)(p + 1) <= hi, "result outside of the map"); VF_EQ(Val<T>::no(*p), model[(size_t)at].second, "mapped value"); VF_EV("found"); if((size_t)at + 1 == model.size()) VF_EV("last entry"); if(at == 0) VF_EV("first entry");
        for(size_t i = (size_t)at + 1; i < model.size(); ++i) if(model[i].first == k) { VF_EV("repeated key"); break; }
        if(c.rng.coin()) { int v = (int)c.rng.below(9000); *p = Val<T>::of(v); model[(size_t)at].second = v; c.op("= %d", v); VF_EV("mapped value written"); c.nt(); }
    }
    for(int k = 0; k < universe; ++k) { int at = -1; for(size_t i = 0; i < model.size() && at < 0; ++i) if(model[i].first == k) at = (int)i; T* p = m[Key<K>::of(k)]; VF_EQ(p != nullptr, at >= 0, "present"); if(p) VF_EQ(Val<T>::no(*p), model[(size_t)at].second, "mapped value"); }
}
template <class K, class T, size_t N> void maps(Ctx& c)
{
    int universe = (int)(c.rng.coin() ? N : 2 * N + 2); if(sizeof(K) == 1 && universe > 256) universe = 256; std::vector<std::pair<int, int> > model; uint64_t h = N; for(size_t i = 0; i < N; ++i) { model.push_back({ (int)c.rng.below((uint64_t)universe), (int)c.rng.below(9000) }); c.op("{%d,%d}", model.back().first, model.back().second); h = mix(h ^ (uint64_t)(model.back().first * 9001 + model.back().second)); } c.mark(h); c.state(h); Ledger::reset();
    {
        typedef estd::pair<K, T> P; Raw<P> raw(N); for(size_t i = 0; i < N; ++i) new(&raw[i]) P(Key<K>::of(model[i].first), Val<T>::of(model[i].second)); typedef P Arr[N];
        { estd::array<P, N>* a = (estd::array<P, N>*)&raw[0]; typedef estd::layer1::map<K, T, N> M; Boxed<M> m(*a); c.op("layer1"); lookups<M, K, T>(c, *m, model, universe, &*m, &*m + 1); for(size_t i = 0; i < N; ++i) VF_EQ(Val<T>::no(raw[i].second), model[i].second, "array the map was copied from"); M copy(*m); T* p = copy[Key<K>::of(model[0].first)]; VF_REQ(p != nullptr && (void*)p >= (void*)&copy && (void*)p < (void*)(&copy + 1), "copy of a map"); T* q = (*m)[Key<K>::of(model[0].first)]; VF_EQ(Val<T>::no(*p), Val<T>::no(*q), "copied value"); *p = Val<T>::of(9100); VF_REQ(Val<T>::no(*q) != 9100, "copy shares entries"); VF_EV("copied"); }
        { typedef estd::layer2::map<K, T, N> M; M m(&raw[0]); c.op("layer2"); std::vector<std::pair<int, int> > now(model); lookups<M, K, T>(c, m, now, universe, &raw[0], &raw[0] + N); }
        for(size_t i = 0; i < N; ++i) model[i].second = Val<T>::no(raw[i].second);
        { typedef estd::layer3::map<K, T> M; M m(*(Arr*)&raw[0]); c.op("layer3"); lookups<M, K, T>(c, m, model, universe, &raw[0], &raw[0] + N); }
        for(size_t i = 0; i < N; ++i) raw[i].~P();
    }
    VF_LEDGER(0);
}
}
VF_REG("int,int,1", 20, maps<int, int, 1>); VF_REG("int,int,4", 60, maps<int, int, 4>); VF_REG("short,rec,9", 60, maps<short, Rec, 9>); VF_REG("longlong,unsigned,17", 40, maps<long long, unsigned, 17>); VF_REG("two,short,6", 40, maps<Two, short, 6>); VF_REG("string,int,8", 40, maps<Str, int, 8>); VF_REG("int,rec,300", 4, maps<int, Rec, 300>); VF_REG("u8,int,200", 6, maps<unsigned char, int, 200>);
VF_GROUP_W(list, 10) { int a = (int)c.rng.below(90); estd::layer1::map<int, int, 4> m = { { 1, a }, { 2, a + 1 }, { 3, a + 2 }, { 4, a + 3 } }; for(int k = 0; k < 6; ++k) { int* p = m[k]; VF_EQ(p != nullptr, k >= 1 && k <= 4, "present"); if(p) VF_EQ(*p, a + k - 1, "mapped value"); } c.mark((uint64_t)a); c.nt(); VF_EV("list"); }
