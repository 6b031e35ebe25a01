#pragma once
#include "vf.h"
#include <estd/string.h>
#include "heap_alloc.h"
#include <string_view>
#include <limits>
using namespace vf;

// ---- providers: own the storage, expose the string and its usable maximum
template <size_t N, bool NT> struct L1
{
    using S = estd::layer1::string<N, NT>;
    static constexpr bool nt = NT; static constexpr bool dynamic = false; static constexpr bool owning = true;
    Boxed<S> b;
    size_t maxlen;
    explicit L1(Ctx&) : b(), maxlen(N - (NT ? 1 : 0)) {}
    S& s() { return *b; }
    const char* storage() { return b->data(); }
    static void name(Ctx& c) { c.op("layer1::string<%zu,%d>", N, NT); }
};
template <size_t N, bool NT> struct L2
{
    using S = estd::layer2::string<N, NT>;
    static constexpr bool nt = NT; static constexpr bool dynamic = false; static constexpr bool owning = false;
    Raw<char> buf; Boxed<S> b; size_t maxlen;
    explicit L2(Ctx&) : buf(N), b((char*)buf.data(), 0), maxlen(N - (NT ? 1 : 0)) {}
    S& s() { return *b; }
    const char* storage() { return buf.data(); }
    static void name(Ctx& c) { c.op("layer2::string<%zu,%d>", N, NT); }
};
struct L2U      // unbounded: the caller guarantees the room
{
    using S = estd::layer2::string<>;
    static constexpr bool nt = true; static constexpr bool dynamic = false; static constexpr bool owning = false;
    Raw<char> buf; Boxed<S> b; size_t maxlen;
    explicit L2U(Ctx& c) : buf(2 + c.rng.below(90)), b((char*)buf.data(), 0), maxlen(buf.n - 1) {}
    S& s() { return *b; }
    const char* storage() { return buf.data(); }
    static void name(Ctx& c) { c.op("layer2::string<>"); }
};
template <bool NT> struct L3
{
    using S = estd::layer3::basic_string<char, NT>;
    static constexpr bool nt = NT; static constexpr bool dynamic = false; static constexpr bool owning = false;
    Raw<char> buf; Boxed<S> b; size_t maxlen;
    explicit L3(Ctx& c) : buf(2 + c.rng.below(c.rng.coin() ? 20 : 400)), b((char*)buf.data(), 0, (unsigned short)buf.n), maxlen(buf.n - (NT ? 1 : 0)) {}
    S& s() { return *b; }
    const char* storage() { return buf.data(); }
    static void name(Ctx& c) { c.op("layer3::basic_string<%d>", NT); }
};
template <bool NT> struct Dyn
{
    using S = estd::internal::basic_string<HeapAlloc<char>, estd::internal::string_policy_helper<char, estd::char_traits<char>,
        NT ? estd::internal::string_options::null_terminated : estd::internal::string_options::none>>;
    static constexpr bool nt = NT; static constexpr bool dynamic = true; static constexpr bool owning = true;
    Boxed<S> b; size_t maxlen;
    explicit Dyn(Ctx&) : b(), maxlen(600) {}
    ~Dyn() { heap_release_all(); }
    S& s() { return *b; }
    const char* storage() { return nullptr; }
    static void name(Ctx& c) { c.op("string (heap,%d)", NT); }
};
