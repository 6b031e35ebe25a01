// Monitor runtime shared by all drivers: seeded generation, case/trace bookkeeping, violation
// reporting, event counters, object-lifetime ledger and guarded storage.
// It deliberately includes nothing from the library under test.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <utility>
#include <new>

// VF_MT: the multi-threaded build (C27): several threads run the same cases at once, each with its own
// bookkeeping, so that nothing but the library under test could be shared between them
#ifdef VF_MT
#define VF_TLS thread_local
#else
#define VF_TLS
#endif

namespace vf {

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
    // integers biased towards boundaries
    uint64_t edgy()
    {
        switch(below(6))
        {
            case 0: return below(4);
            case 1: return (uint64_t)0 - below(4);
            case 2: return ((uint64_t)1 << below(64)) + range(-2, 2);
            case 3: return below(1000);
            case 4: return next() >> below(64);
            default: return next();
        }
    }
};

struct Fail {};     // thrown to abandon a case after a violation has been recorded

struct Ctx
{
    Rng rng;
    const char* group;
    uint64_t index;
    explicit Ctx(uint64_t seed) : rng(seed), group(""), index(0) {}

    std::string trace;
    uint64_t digest = 0;
    bool nontrivial = false;
    unsigned ops = 0;

    // one line of the operation history of this case
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // one atom that distinguishes this case/state from others
    void mark(uint64_t h) { digest = mix(digest ^ h); }
    void nt() { nontrivial = true; }
    // distinct (abstract) state seen by the monitor
    void state(uint64_t h);
    // record violation and abandon the case
    [[noreturn]] void fail(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
};

struct Group { const char* name; void (*fn)(Ctx&); unsigned weight; };
struct Probe { const char* name; void (*fn)(Ctx&); };
std::vector<Group>& groups();
std::vector<Probe>& probes();
struct RegG { RegG(const char* n, void (*f)(Ctx&), unsigned w) { groups().push_back(Group{n, f, w}); } };
struct RegP { RegP(const char* n, void (*f)(Ctx&)) { probes().push_back(Probe{n, f}); } };
uint64_t& event_slot(const char* name);

extern bool quiet_alloc;            // C28: set by the driver around monitored sections
Ctx& cur();                         // case being run

// ---------------------------------------------------------------- guarded storage
// Places a T inside a heap block of exactly sizeof(T) bytes (so that ASan red zones are flush with
// it), poisoned with a pattern first so that reads of never-written bytes are deterministic junk.
template <class T>
struct Boxed
{
    T* p;
    template <class ...A> explicit Boxed(A&&... a)
    {
        void* m = ::operator new(sizeof(T));
        memset(m, 0xA5, sizeof(T));
        p = new (m) T(std::forward<A>(a)...);
    }
    ~Boxed() { p->~T(); ::operator delete((void*)p); }
    Boxed(const Boxed&) = delete;
    T& operator*() { return *p; }
    T* operator->() { return p; }
};

// Heap array of exactly n elements filled with a pattern
template <class T>
struct Raw
{
    size_t n; T* p;
    explicit Raw(size_t n_, unsigned char fill = 0xA5) : n(n_), p((T*)::operator new(n_ * sizeof(T) ? n_ * sizeof(T) : 1))
    { memset((void*)p, fill, n * sizeof(T)); }
    Raw(const Raw&) = delete;
    ~Raw() { ::operator delete((void*)p); }
    T* data() { return p; }
    T& operator[](size_t i) { return p[i]; }
};

// ---------------------------------------------------------------- lifetime ledger
struct Ledger { static VF_TLS long live, constructed, destroyed, copies, moves; static VF_TLS const char* err;
    static void reset() { live = constructed = destroyed = copies = moves = 0; err = nullptr; }
    static void reset_counts() { copies = moves = 0; } };

// Value type whose every special member reports to the ledger.  Errors are latched in Ledger::err
// (it may be raised inside destructors, where throwing is not possible) and checked by the driver.
struct Tracked
{
    enum : uint32_t { ALIVE = 0xA11FE11Eu, DEAD = 0xDEADDEADu };
    uint32_t magic;
    int v;
    int moved;      // 1 after having been moved from
    int* heap;      // makes ASan see double destruction / leaks / stale copies

    void born(int val) { magic = ALIVE; v = val; moved = 0; heap = new int(val); ++Ledger::live; ++Ledger::constructed; }
    bool ok(const char* what) const
    {
        if(magic != ALIVE) { if(!Ledger::err) Ledger::err = what; return false; }
        return true;
    }
    Tracked() { born(0); }
    Tracked(int val) { born(val); }
    Tracked(const Tracked& o) { bool g = o.ok("copy from object outside its lifetime"); born(g ? o.v : -1); moved = g ? o.moved : 0; ++Ledger::copies; }
    Tracked(Tracked&& o) { bool g = o.ok("move from object outside its lifetime"); born(g ? o.v : -1); moved = g ? o.moved : 0; if(g) { o.moved = 1; o.v = -77; *o.heap = -77; } ++Ledger::moves; }
    Tracked& operator=(const Tracked& o)
    {
        if(!ok("assignment to object outside its lifetime")) return *this;
        if(!o.ok("assignment from object outside its lifetime")) return *this;
        v = o.v; moved = o.moved; *heap = *o.heap; ++Ledger::copies; return *this;
    }
    Tracked& operator=(Tracked&& o)
    {
        if(!ok("move-assignment to object outside its lifetime")) return *this;
        if(!o.ok("move-assignment from object outside its lifetime")) return *this;
        if(this == &o) return *this;
        v = o.v; moved = o.moved; *heap = *o.heap; o.moved = 1; o.v = -77; *o.heap = -77; ++Ledger::moves; return *this;
    }
    ~Tracked()
    {
        if(!ok("destruction of object outside its lifetime")) return;
        magic = DEAD; delete heap; heap = nullptr; --Ledger::live; ++Ledger::destroyed;
    }
    int get() const { if(!ok("read of object outside its lifetime")) return -9999; if(*heap != v && !Ledger::err) Ledger::err = "object state torn"; return v; }
    bool operator==(const Tracked& o) const { return get() == o.get(); }
    bool operator!=(const Tracked& o) const { return get() != o.get(); }
    bool operator<(const Tracked& o) const { return get() < o.get(); }
    bool operator>(const Tracked& o) const { return get() > o.get(); }
};

std::string show(const void* p, size_t n);                  // printable dump of bytes
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }
template <class T> inline std::string show(const std::vector<T>& v) { std::string s = "["; for(const auto& x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x); return s + "]"; }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{ const unsigned char* b = (const unsigned char*)p; while(n--) { h ^= *b++; h *= 1099511628211ull; } return h; }

} // vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#ifndef VF_PREFIX     // set where drivers of several properties are built into one
#define VF_PREFIX
#define VF_PROBES 1
#endif
#define VF_GROUP_W(name, weight) \
    static void vf_g_##name(vf::Ctx& c); \
    static vf::RegG vf_rg_##name(VF_PREFIX #name, vf_g_##name, weight); \
    static void vf_g_##name([[maybe_unused]] vf::Ctx& c)
#define VF_GROUP(name) VF_GROUP_W(name, 100)
// register a template instantiation (or any function) as a group
#define VF_REG(name, weight, ...) static vf::RegG VF_CAT(vf_rt_, __COUNTER__)(VF_PREFIX name, __VA_ARGS__, weight)
#ifndef VF_PROBES
#define VF_PROBE(name) [[maybe_unused]] static void vf_p_##name([[maybe_unused]] vf::Ctx& c)
#else
#define VF_PROBE(name) \
    static void vf_p_##name(vf::Ctx& c); \
    static vf::RegP vf_rp_##name(#name, vf_p_##name); \
    static void vf_p_##name([[maybe_unused]] vf::Ctx& c)
#endif

#define VF_EVN(name, k) do { static VF_TLS const char* vf_name; static VF_TLS uint64_t* vf_slot; const char* vf_n = (name); if(vf_n != vf_name) { vf_slot = &vf::event_slot(vf_n); vf_name = vf_n; } *vf_slot += (k); } while(0)
#define VF_EV(name) VF_EVN(name, 1)
// requirement: on failure record a violation and abandon the case
#define VF_REQ(cond, ...) do { if(!(cond)) c.fail(__FILE__, __LINE__, __VA_ARGS__); } while(0)
#define VF_EQ(a, b, what) do { auto&& vf_a = (a); auto&& vf_b = (b); if(!(vf_a == vf_b)) \
    c.fail(__FILE__, __LINE__, "%s: got %lld, expected %lld", what, (long long)vf_a, (long long)vf_b); } while(0)
#define VF_LEDGER(expected_live) do { \
    if(vf::Ledger::err) c.fail(__FILE__, __LINE__, "lifetime: %s", vf::Ledger::err); \
    if(vf::Ledger::live != (long)(expected_live)) c.fail(__FILE__, __LINE__, "lifetime: %ld live objects, expected %ld (constructed %ld destroyed %ld)", \
        vf::Ledger::live, (long)(expected_live), vf::Ledger::constructed, vf::Ledger::destroyed); } while(0)
