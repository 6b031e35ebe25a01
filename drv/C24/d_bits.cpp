// Byte order, bytes and flag sets
#include <estd/bit.h>
#include <estd/cstddef.h>
#include <estd/flags.h>
#include <type_traits>
#include <vf.h>
using vf::Ctx;

template <class T> static void swapped(Ctx& c, const char* n)
{
    T v = (T)c.rng.edgy(), w; unsigned char b[sizeof(T)], r[sizeof(T)];
    memcpy(b, &v, sizeof v); for(size_t i = 0; i < sizeof v; i++) r[i] = b[sizeof v - 1 - i];
    memcpy(&w, r, sizeof w);
    c.op("%s %llx", n, (long long)v); c.mark((uint64_t)v);
    T g = estd::byteswap(v); VF_REQ(g == w, "byteswap of %s %llx gave %llx", n, (long long)v, (long long)g);
    VF_REQ(estd::byteswap(g) == v && estd::byteswap<T>(g) == v, "byteswap twice");
    VF_REQ((std::is_same<decltype(estd::byteswap(v)), T>::value), "byteswap of %s returns another type", n);
    VF_EV("integers byte swapped");
}
static_assert(estd::byteswap<uint32_t>(0x01020304u) == 0x04030201u, "usable in constant expressions");
VF_GROUP_W(byte_order, 30)
{
    c.nt();
    swapped<int16_t>(c, "int16"); swapped<uint16_t>(c, "uint16"); swapped<int32_t>(c, "int32"); swapped<uint32_t>(c, "uint32"); swapped<uint64_t>(c, "uint64"); swapped<int64_t>(c, "int64"); swapped<uint8_t>(c, "uint8"); swapped<int8_t>(c, "int8"); swapped<char>(c, "char"); swapped<long long>(c, "long long"); swapped<unsigned long long>(c, "unsigned long long"); swapped<long>(c, "long"); swapped<wchar_t>(c, "wchar_t"); swapped<char16_t>(c, "char16_t"); swapped<char32_t>(c, "char32_t");
    uint32_t probe = 0x01020304; unsigned char first; memcpy(&first, &probe, 1);
    VF_REQ((estd::endian::native == estd::endian::little) == (first == 4) && (estd::endian::native == estd::endian::big) == (first == 1), "native byte order misreported");
    VF_REQ(estd::endian::little != estd::endian::big, "byte orders must differ");
}

VF_GROUP_W(bytes, 20)
{
    c.nt();
    unsigned x = c.rng.below(256), y = c.rng.below(256), s = c.rng.below(9);
    c.op("bytes %02x %02x shift %u", x, y, s); c.mark(x * 65536 + y * 256 + s);
    estd::byte a = estd::to_byte(x), b = estd::to_byte((unsigned char)y);
    auto I = [](estd::byte v) { return estd::to_integer<unsigned>(v); };
    VF_EQ(I(a), x, "to_integer");
    VF_EQ(estd::to_integer<unsigned char>(b), (unsigned char)y, "to_integer<unsigned char>");
    VF_EQ((int)estd::to_integer<signed char>(b), (int)(signed char)y, "to_integer<signed char>");
    VF_EQ(estd::to_integer<long long>(b), (long long)y, "to_integer<long long>");
    VF_EQ(I(a << s), (x << s) & 0xff, "byte << n");
    VF_EQ(I(a | b), (x | y), "byte | byte");
    estd::byte t = a; auto& r1 = (t <<= s); VF_EQ(I(t), (x << s) & 0xff, "byte <<= n"); VF_REQ(&r1 == &t, "<<= must return its operand");
    t = a; auto& r2 = (t >>= s); VF_EQ(I(t), x >> s, "byte >>= n"); VF_REQ(&r2 == &t, ">>= must return its operand");
    t = a; auto& r3 = (t |= b); VF_EQ(I(t), (x | y), "byte |= byte"); VF_REQ(&r3 == &t, "|= must return its operand");
    VF_REQ(I(a) == x && I(b) == y, "operands changed");
    t = estd::to_byte(x | 0xabcd00u); VF_EQ(I(t), x, "to_byte keeps the low byte");
    VF_EV("byte operations");
}

enum FA : int { A0 = 0, A1 = 1, A2 = 2, A4 = 4, Ahi = 0x40000000, Aall = 0x7fffffff };
enum class FB : unsigned { none = 0, a = 1, b = 2, hi = 0x80000000u };
enum class FC : unsigned long { none = 0 };
enum class FD : long long { none = 0 };
ESTD_FLAGS(FA) ESTD_FLAGS(FB) ESTD_FLAGS(FC) ESTD_FLAGS(FD)
template <class E> static void flagset(Ctx& c, const char* n)
{
    typedef typename std::underlying_type<E>::type U; typedef estd::detail::flags<E> F;
    U mask = std::is_same<E, FA>::value ? (U)0x7fffffff : (U)~U(0);
    U x = (U)c.rng.edgy() & mask, y = (U)c.rng.edgy() & mask; if(c.rng.chance(1, 8)) y = x; if(c.rng.chance(1, 8)) y = (U)(~x) & mask; if(c.rng.chance(1, 10)) x = 0;
    E ex = E(x), ey = E(y); F fx(ex), fy{ey}; F gx(x);
    c.op("%s %llx with %llx", n, (long long)x, (long long)y); c.mark((uint64_t)x * 31 + (uint64_t)y);
    auto V = [](F f) { return (U)f.value(); };
    VF_REQ(V(fx) == x && V(gx) == x, "flags hold %llx", (long long)V(fx));
    VF_REQ(V(fx | fy) == (U)(x | y) && V(fx | ey) == (U)(x | y) && V(ex | ey) == (U)(x | y), "| gave %llx", (long long)V(fx | ey));
    VF_REQ(V(fx & fy) == (U)(x & y) && V(fx & ey) == (U)(x & y) && V(ex & ey) == (U)(x & y), "& gave %llx", (long long)V(fx & ey));
    VF_REQ(V(fx ^ fy) == (U)(x ^ y) && V(fx ^ ey) == (U)(x ^ y) && V(ex ^ ey) == (U)(x ^ y), "^ gave %llx", (long long)V(fx ^ ey));
    VF_REQ(V(~fx) == (U)~x && V(~ex) == (U)~x, "~ gave %llx", (long long)V(~fx));
    VF_REQ((bool)fx == (x != 0), "truth of %llx", (long long)x);
    VF_REQ((bool)(fx & ey) == ((x & y) != 0), "test of a flag");
    VF_REQ((fx == fy) == (x == y) && (fx != fy) == (x != y) && (fx == ey) == (x == y) && (fx == ex), "comparison");
    F h = fx; F& r = (h |= fy); VF_REQ(V(h) == (U)(x | y) && &r == &h, "|= gave %llx", (long long)V(h)); VF_REQ(V(fy) == y && V(fx) == x, "operands changed");
    h |= ex; VF_REQ(V(h) == (U)(x | y), "|= of present flags");
    E back = h; VF_REQ((U)back == (U)(x | y), "conversion to the enumeration");
    VF_EV("flag operations");
}
static_assert((FB::a | FB::b).value() == FB(3), "usable in constant expressions");
VF_GROUP_W(flag_sets, 30) { c.nt(); flagset<FA>(c, "int"); flagset<FB>(c, "unsigned"); flagset<FC>(c, "unsigned long"); flagset<FD>(c, "long long"); }
