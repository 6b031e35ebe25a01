// Hashes against independently written FNV-1/1a (bit-serial prime multiplication by 128 bit arithmetic)
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/functional.h>
#include <estd/optional.h>
#include <estd/vector.h>
#include <estd/span.h>
#include <estd/variant.h>
#include <estd/internal/functional/hash.h>
#include <estd/internal/raw/variant.h>
#include <list>
#include <vf.h>
using vf::Ctx;
namespace in = estd::internal;

// reference: 256^0 + 256^3 * ... primes 2^24 + 2^8 + 0x93 and 2^40 + 2^8 + 0xb3
static uint32_t ref32(const std::string& s, bool a, uint32_t h = 0x811c9dc5)
{
    for(unsigned char ch : s)
    {
        uint64_t w = h;
        if(a) w ^= ch;
        w = (w << 24) + (w << 8) + w * 0x93;
        w &= 0xffffffffu;
        if(!a) w ^= ch;
        h = (uint32_t)w;
    }
    return h;
}
static uint64_t ref64(const std::string& s, bool a, uint64_t h = 14695981039346656037ull)
{
    for(unsigned char ch : s)
    {
        unsigned __int128 w = h;
        if(a) w ^= ch;
        w = (w << 40) + (w << 8) + w * 0xb3;
        h = (uint64_t)w;
        if(!a) h ^= ch;
    }
    return h;
}
static std::string text(Ctx& c, size_t n, bool nul = true)
{
    std::string s; int mode = c.rng.below(4);
    while(s.size() < n) { char ch = mode == 0 ? 'a' + c.rng.below(3) : mode == 1 ? (char)(0x80 | c.rng.below(128)) : mode == 2 ? (char)(32 + c.rng.below(95)) : (char)c.rng.next(); if(!nul && !ch) ch = 'z'; s += ch; }
    return s;
}

template <class Ch, class It> static void four(Ctx& c, const std::string& s, It b, It e, const char* how)
{
    uint32_t seed = (uint32_t)c.rng.edgy(); uint64_t seed64 = c.rng.edgy();
    uint32_t a1 = in::fnv_hash<uint32_t, in::FNV_1A>::hash(b, e), a0 = in::fnv_hash<uint32_t, in::FNV_1>::hash(b, e);
    uint64_t b1 = in::fnv_hash<uint64_t, in::FNV_1A>::hash(b, e), b0 = in::fnv_hash<uint64_t, in::FNV_1>::hash(b, e);
    VF_REQ(a1 == ref32(s, true), "FNV-1a 32 of %s via %s: %08x, expected %08x", vf::show(s).c_str(), how, a1, ref32(s, true));
    VF_REQ(a0 == ref32(s, false), "FNV-1 32 of %s via %s: %08x, expected %08x", vf::show(s).c_str(), how, a0, ref32(s, false));
    VF_REQ(b1 == ref64(s, true), "FNV-1a 64 of %s via %s: %016llx, expected %016llx", vf::show(s).c_str(), how, (long long)b1, (long long)ref64(s, true));
    VF_REQ(b0 == ref64(s, false), "FNV-1 64 of %s via %s: %016llx, expected %016llx", vf::show(s).c_str(), how, (long long)b0, (long long)ref64(s, false));
    VF_REQ(in::fnv_hash<uint32_t>::hash(b, e) == a1 && in::fnv_hash<uint64_t>::hash(b, e) == b1, "default mode must be FNV-1a");
    VF_REQ((in::fnv_hash<uint32_t, in::FNV_1A>::hash(b, e, seed) == ref32(s, true, seed)) && (in::fnv_hash<uint32_t, in::FNV_1>::hash(b, e, seed) == ref32(s, false, seed)), "seeded 32 bit hash of %s", vf::show(s).c_str());
    VF_REQ((in::fnv_hash<uint64_t, in::FNV_1A>::hash(b, e, seed64) == ref64(s, true, seed64)) && (in::fnv_hash<uint64_t, in::FNV_1>::hash(b, e, seed64) == ref64(s, false, seed64)), "seeded 64 bit hash of %s", vf::show(s).c_str());
    VF_EV("byte sequences hashed");
}
VF_GROUP_W(fnv, 40)
{
    c.nt();
    static const size_t lens[] = {0, 1, 2, 3, 7, 8, 9, 63, 64, 255, 256, 1000};
    size_t n = c.rng.coin() ? c.rng.below(40) : c.rng.pick(lens);
    std::string s = text(c, n);
    vf::Raw<unsigned char> m(n); memcpy(m.p, s.data(), n);
    c.op("%zu bytes", n); c.mark(vf::hash_bytes(s.data(), n));
    four<unsigned char>(c, s, (const unsigned char*)m.p, (const unsigned char*)m.p + n, "unsigned char");
    four<char>(c, s, (const char*)m.p, (const char*)m.p + n, "char");
    four<signed char>(c, s, (signed char*)m.p, (signed char*)m.p + n, "signed char");
    std::list<char> l(s.begin(), s.end()); four<char>(c, s, l.begin(), l.end(), "list");
    // resumability: hashing the tail with the head's hash as seed
    size_t k = c.rng.below(n + 1);
    uint32_t h = in::fnv_hash<uint32_t>::hash(m.p, m.p + k); VF_REQ(in::fnv_hash<uint32_t>::hash(m.p + k, m.p + n, h) == ref32(s, true), "hash split at %zu differs", k);
    VF_REQ(in::container_hash<uint64_t>{}(s) == (size_t)ref64(s, true) && in::container_hash<>{}(s) == ref32(s, true), "container hash");
    VF_REQ(in::container_hash<>{}(l) == ref32(s, true), "container hash of a list");
    c.state(n);
}

template <class S> static size_t H(const S& s) { return estd::hash<S>{}(s); }
VF_GROUP_W(texts, 40)
{
    c.nt();
    size_t n = c.rng.below(40);
    std::string s = text(c, n, false);
    size_t want = ref32(s, true);
    c.op("%s", vf::show(s).c_str()); c.mark(vf::hash_bytes(s.data(), n));
    estd::layer1::string<48> l1; l1 += s.c_str(); VF_EQ(H(l1), want, "hash of inline string");
    estd::layer1::string<64> l1b; l1b += s.c_str(); VF_EQ(H(l1b), want, "hash of inline string of other capacity");
    estd::layer1::string<48, false> l1c; l1c.append(s.data(), n); VF_EQ(H(l1c), want, "hash of inline unterminated string");
    vf::Raw<char> buf(49); buf.p[0] = 0; estd::layer2::basic_string<char, 49> l2(buf.p); l2 += s.c_str(); VF_EQ(H(l2), want, "hash of string over a buffer");
    estd::layer2::const_string l2c(s.c_str()); VF_EQ(H(l2c), want, "hash of constant string");
    VF_EQ(estd::hash<const estd::layer2::const_string>{}(l2c), want, "hash functor of const type");
    VF_EQ((estd::hash<const estd::layer1::string<48>>{}(l1)), want, "hash functor of const inline string");
    vf::Raw<char> buf3(49); buf3.p[0] = 0; estd::layer3::basic_string<char> l3(buf3.p, (unsigned long)0, (unsigned short)49); l3 += s.c_str(); VF_EQ((estd::internal::container_hash<>{}(l3)), want, "hash of string over a sized buffer");
    vf::Raw<char> ex(n); memcpy(ex.p, s.data(), n);
    estd::layer3::const_string l3c(ex.p, n); VF_EQ((estd::internal::container_hash<>{}(l3c)), want, "hash of sized constant string");
    estd::string_view v(ex.p, n); VF_EQ(H(v), want, "hash of view");
    VF_EQ(estd::hash<estd::string_view>{}(estd::string_view(s.data(), n)), want, "hash of view elsewhere");
    // equal content arrived at by another history
    std::string junk = text(c, c.rng.below(20), false); estd::layer1::string<64> l1d; l1d += junk.c_str(); l1d.clear(); size_t k = c.rng.below(n + 1);
    l1d.append(s.data(), k); l1d.append(s.data() + k, n - k); VF_REQ(l1d == l1 && H(l1d) == H(l1), "equal strings hash unequally after different histories");
    // a differing text (one changed byte) must not collide: FNV-1a 32 over equal lengths with one changed byte is injective per step
    if(n) { std::string t = s; size_t at = c.rng.below(n); char old = t[at]; t[at] = old ^ (char)(1 + c.rng.below(3)); if(!t[at]) t[at] = (char)(old ^ 0x40); VF_REQ(H(estd::layer2::const_string(t.c_str())) == ref32(t, true), "hash of neighbour"); VF_REQ(t == s || H(estd::layer2::const_string(t.c_str())) != want, "one changed byte did not change the hash"); }
    // views of a part
    if(n) { size_t a = c.rng.below(n), b = c.rng.below(n - a + 1); VF_EQ(H(v.substr(a, b)), (size_t)ref32(s.substr(a, b), true), "hash of part of a view"); }
    VF_EV("texts hashed in every storage");
    c.state(n);
}

template <class T> static void integral(Ctx& c, const char* n)
{
    T v = (T)c.rng.edgy(); 
    c.op("%s %lld", n, (long long)v); c.mark((uint64_t)v);
    VF_REQ(estd::hash<T>{}(v) == static_cast<size_t>(v), "hash of %s %lld is %zu", n, (long long)v, (size_t)estd::hash<T>{}(v));
    const T k = v; estd::hash<T> h; VF_REQ(h(k) == h(v), "hash is not repeatable");
    estd::optional<T> o(v); VF_REQ(estd::hash<estd::optional<T>>{}(o) == h(v), "engaged optional must hash like its value");
    estd::optional<T> e; VF_REQ(estd::hash<estd::optional<T>>{}(e) == 0, "empty optional hashes to %zu", (size_t)estd::hash<estd::optional<T>>{}(e));
    VF_EV("integers hashed");
}
VF_GROUP_W(integers, 30)
{
    c.nt();
    integral<bool>(c, "bool"); integral<char>(c, "char"); integral<signed char>(c, "signed char"); integral<unsigned char>(c, "unsigned char"); integral<short>(c, "short"); integral<unsigned short>(c, "unsigned short");
    integral<int>(c, "int"); integral<unsigned>(c, "unsigned"); integral<long>(c, "long"); integral<unsigned long>(c, "unsigned long"); integral<long long>(c, "long long"); integral<unsigned long long>(c, "unsigned long long"); integral<char16_t>(c, "char16_t"); integral<wchar_t>(c, "wchar_t");
    int v = (int)c.rng.edgy();
    estd::layer1::optional<int, -1> o; VF_REQ((estd::hash<estd::layer1::optional<int, -1>>{}(o) == estd::hash<int>{}(-1)), "empty sentinel optional"); 
    if(v != -1) { o = v; VF_REQ((estd::hash<estd::layer1::optional<int, -1>>{}(o) == estd::hash<int>{}(v)), "engaged sentinel optional"); }
    VF_REQ(estd::hash<estd::monostate>{}(estd::monostate{}) == 0, "monostate");
    estd::monostate m1, m2; VF_REQ(m1 == m2 && !(m1 != m2), "monostates are equal to each other, and not unequal");
    VF_EV("special keys hashed");
}
