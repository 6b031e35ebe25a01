// numeric limits against the standard ones; lengths against the text of extreme values; promotions against representability
#include "d_types.h"
#include <limits>
#include <string>
#include <algorithm>
using vf::Ctx;
typedef __int128 W;

static std::string text(W v, unsigned base)
{
    bool neg = v < 0; unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v; std::string s;
    do { s += "0123456789abcdef"[(unsigned)(u % base)]; u /= base; } while(u);
    if(neg) s += '-';
    std::reverse(s.begin(), s.end()); return s;
}
template <class T> static T rnd(Ctx& c) { return (T)c.rng.edgy(); }

template <class T> static void ints(Ctx& c, const char* n)
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    c.op("%s", n);
    VF_REQ(E::min() == S::min() && E::max() == S::max(), "%s: min/max", n);
    VF_EQ((long long)E::digits, (long long)S::digits, n); VF_EQ((long long)E::digits10, (long long)S::digits10, n);
    VF_REQ(E::is_signed == S::is_signed && E::is_integer && E::is_specialized && !E::is_iec559 && E::radix == 2, "%s: characteristics", n);
    VF_EQ((unsigned)E::bits, (unsigned)(sizeof(T) * 8), n);
    // maximum text length: sufficient for every value, tight for the longest decimal
    T v = rnd<T>(c); size_t l8 = E::template length<8>::value, l10 = E::template length<10>::value, l16 = E::template length<16>::value;
    for(T x : {v, (T)S::min(), (T)S::max()})
    {
        VF_REQ(text((W)x, 8).size() <= l8, "%s: %s does not fit the %zu octal characters promised", n, text((W)x, 8).c_str(), l8);
        VF_REQ(text((W)x, 10).size() <= l10, "%s: %s does not fit the %zu decimal characters promised", n, text((W)x, 10).c_str(), l10);
        VF_REQ(text((W)x, 16).size() <= l16, "%s: %s does not fit the %zu hexadecimal characters promised", n, text((W)x, 16).c_str(), l16);
        VF_REQ(x >= E::min() && x <= E::max(), "%s: value outside the limits", n);
    }
    { size_t w = std::max(text((W)S::min(), 10).size(), text((W)S::max(), 10).size()); VF_REQ(l10 >= w && l10 <= w + 1, "%s: decimal length %zu, longest text %zu", n, (size_t)l10, w); }
    // digits10: every value of so many digits is representable
    W p = 1; for(int i = 0; i < (int)E::digits10; i++) p *= 10; VF_REQ(p - 1 <= (W)E::max() && p * 10 - 1 > (W)E::max(), "%s: digits10", n);
    c.mark((uint64_t)v); VF_EV("integer limits judged");
}
template <class T> static void floats(Ctx& c, const char* n)
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    VF_REQ(E::min() == S::min() && E::max() == S::max() && E::lowest() == S::lowest(), "%s: min/max/lowest", n);
    VF_EQ((int)E::digits, (int)S::digits, n); VF_EQ((int)E::digits10, (int)S::digits10, n); VF_EQ((unsigned)E::bits, (unsigned)(sizeof(T) * 8), n);
    VF_REQ(E::is_signed && !E::is_integer && E::is_specialized && E::is_iec559 == S::is_iec559 && (int)E::radix == S::radix, "%s: characteristics", n);
    VF_EV("floating point limits judged");
}
VF_GROUP_W(limits, 20)
{
    c.nt();
    ints<signed char>(c, "signed char"); ints<unsigned char>(c, "unsigned char"); ints<short>(c, "short"); ints<unsigned short>(c, "unsigned short"); ints<int>(c, "int"); ints<unsigned>(c, "unsigned");
    ints<long>(c, "long"); ints<unsigned long>(c, "unsigned long"); ints<long long>(c, "long long"); ints<unsigned long long>(c, "unsigned long long");
    floats<float>(c, "float"); floats<double>(c, "double");
    VF_REQ(!estd::numeric_limits<bool>::min() && estd::numeric_limits<bool>::max() && estd::numeric_limits<bool>::digits == 1 && estd::numeric_limits<bool>::digits10 == 0, "bool");
    static_assert(std::is_same<estd::numeric_limits<int>::unsigned_type, unsigned>::value && std::is_same<estd::numeric_limits<unsigned>::signed_type, int>::value && std::is_same<estd::numeric_limits<signed char>::unsigned_type, unsigned char>::value, "sign counterparts");
}

// promoted_type: smallest type able to hold both operands
template <class A, class B> static void promo(Ctx& c)
{
    typedef typename estd::promoted_type<A, B>::type P; typedef std::numeric_limits<A> LA; typedef std::numeric_limits<B> LB; typedef std::numeric_limits<P> LP;
    c.op("%s%zu with %s%zu gives %s%zu", LA::is_signed ? "i" : "u", sizeof(A), LB::is_signed ? "i" : "u", sizeof(B), LP::is_signed ? "i" : "u", sizeof(P));
    VF_REQ(sizeof(P) >= sizeof(A) && sizeof(P) >= sizeof(B), "narrower than an operand");
    VF_REQ(LP::is_signed == (LA::is_signed || LB::is_signed), "signedness");
    // documented: a bigger unsigned combined with a smaller signed becomes its signed counterpart
    bool excl = (LA::digits > LB::digits + 1 && !LA::is_signed && LB::is_signed) || (LB::digits > LA::digits + 1 && !LB::is_signed && LA::is_signed);
    A a = rnd<A>(c); B b = rnd<B>(c); c.mark((uint64_t)a * 7 + (uint64_t)b);
    if(!excl)
    {
        VF_REQ((W)(P)a == (W)a && (W)(P)b == (W)b, "%s or %s is not representable in the promoted type", text((W)a, 10).c_str(), text((W)b, 10).c_str());
        bool same = LA::is_signed == LB::is_signed;
        if(same) VF_REQ(sizeof(P) == std::max(sizeof(A), sizeof(B)), "wider than necessary");
        VF_EV("promotions of values");
    }
    static_assert(std::is_same<typename estd::promoted_type<B, A>::type, P>::value || sizeof(typename estd::promoted_type<B, A>::type) == sizeof(P), "order of operands");
    VF_EV("promotions judged");
}
template <class A> static void promos(Ctx& c) { promo<A, int8_t>(c); promo<A, uint8_t>(c); promo<A, int16_t>(c); promo<A, uint16_t>(c); promo<A, int32_t>(c); promo<A, uint32_t>(c); promo<A, int64_t>(c); }
VF_GROUP_W(promotions, 30)
{
    c.nt();
    promos<int8_t>(c); promos<uint8_t>(c); promos<int16_t>(c); promos<uint16_t>(c); promos<int32_t>(c); promos<uint32_t>(c);
    promo<int64_t, int64_t>(c);
}
