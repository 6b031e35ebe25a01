// Type transformations and relations against the standard ones
#include "d_types.h"

#define T1(tr, ...) { #__VA_ARGS__, #tr, std::is_same<typename estd::tr<__VA_ARGS__>::type, typename std::tr<__VA_ARGS__>::type>::value, true },
#define ROWS_ANY(...) \
    T1(remove_const, __VA_ARGS__) T1(remove_volatile, __VA_ARGS__) T1(remove_cv, __VA_ARGS__) T1(remove_reference, __VA_ARGS__) \
    T1(add_const, __VA_ARGS__) T1(add_volatile, __VA_ARGS__) T1(add_cv, __VA_ARGS__) T1(remove_extent, __VA_ARGS__) T1(remove_pointer, __VA_ARGS__) \
    T1(decay, __VA_ARGS__) \
    { #__VA_ARGS__, "remove_cvref", std::is_same<typename estd::remove_cvref<__VA_ARGS__>::type, std::remove_cv_t<std::remove_reference_t<__VA_ARGS__>>>::value, true },
#define ROWS_REF(...) T1(add_lvalue_reference, __VA_ARGS__) T1(add_rvalue_reference, __VA_ARGS__) T1(add_pointer, __VA_ARGS__)
#define ROWS_PTR(...) T1(add_pointer, __VA_ARGS__)
#define BASIC_NOVOID(X) X(bool) X(int) X(const int) X(volatile double) X(int&) X(const int&) X(int&&) X(const volatile int&&)
static constexpr TraitRow table[] = { TY_BASIC(ROWS_ANY) TY_PTR(ROWS_ANY) TY_CLS(ROWS_ANY) ROWS_ANY(ty::F0) ROWS_ANY(ty::F1) ROWS_ANY(ty::FV*) ROWS_ANY(ty::FV) };
static constexpr TraitRow table_ref[] = { BASIC_NOVOID(ROWS_REF) TY_PTR(ROWS_REF) TY_CLS(ROWS_REF) ROWS_REF(ty::F0) ROWS_REF(ty::F1) ROWS_PTR(void) ROWS_PTR(const void) };

// relations
#define R2(tr, a, ...) { #a, #tr " " #__VA_ARGS__, estd::tr<a, __VA_ARGS__>::value, std::tr<a, __VA_ARGS__>::value },
#define PAIRS(a, ...) R2(is_same, a, __VA_ARGS__) R2(is_base_of, a, __VA_ARGS__) R2(is_convertible, a, __VA_ARGS__) R2(is_assignable, a, __VA_ARGS__) R2(is_constructible, a, __VA_ARGS__)
#define AGAINST(a) PAIRS(a, int) PAIRS(a, const int) PAIRS(a, long) PAIRS(a, bool) PAIRS(a, double) PAIRS(a, const char*) PAIRS(a, void*) PAIRS(a, const void*) PAIRS(a, std::nullptr_t) \
    PAIRS(a, ty::S0) PAIRS(a, ty::S1) PAIRS(a, const ty::S1) PAIRS(a, ty::S2) PAIRS(a, ty::S3) PAIRS(a, ty::SPriv) PAIRS(a, ty::SAmb) PAIRS(a, ty::SVirt) PAIRS(a, ty::L1) PAIRS(a, ty::Cls) PAIRS(a, ty::ConvTo) PAIRS(a, ty::FromS1) PAIRS(a, ty::NoCopy) PAIRS(a, ty::Expl) \
    PAIRS(a, ty::E0) PAIRS(a, ty::E2) PAIRS(a, ty::U0) PAIRS(a, ty::S1*) PAIRS(a, ty::S2*) PAIRS(a, ty::SAmb*) PAIRS(a, const ty::S1*) PAIRS(a, int&) PAIRS(a, const int&) PAIRS(a, int&&) PAIRS(a, ty::S1&) PAIRS(a, const ty::S1&) PAIRS(a, ty::S2&) PAIRS(a, ty::F0*) PAIRS(a, ty::SEmptyBase)
static constexpr TraitRow table_pairs[] = {
    AGAINST(int) AGAINST(const int) AGAINST(unsigned char) AGAINST(bool) AGAINST(double) AGAINST(const char*) AGAINST(char*) AGAINST(void*) AGAINST(std::nullptr_t)
    AGAINST(ty::S0) AGAINST(ty::S1) AGAINST(const ty::S1) AGAINST(volatile ty::S1) AGAINST(ty::S2) AGAINST(ty::S3) AGAINST(ty::S4) AGAINST(ty::SPriv) AGAINST(ty::SAmb) AGAINST(ty::SVirt) AGAINST(ty::L1) AGAINST(ty::Cls) AGAINST(ty::ConvTo) AGAINST(ty::FromS1) AGAINST(ty::NoCopy) AGAINST(ty::Expl)
    AGAINST(ty::E0) AGAINST(ty::E2) AGAINST(ty::U0) AGAINST(ty::S1*) AGAINST(ty::S2*) AGAINST(ty::SAmb*) AGAINST(ty::SPriv*) AGAINST(int&) AGAINST(const int&) AGAINST(int&&) AGAINST(ty::S1&) AGAINST(const ty::S2&) AGAINST(ty::F0*) AGAINST(ty::F0&)
#define ISSAMEV(a) { #a, "void relations", estd::is_convertible<a, void>::value, std::is_convertible<a, void>::value }, { #a, "void relations", estd::is_convertible<void, a>::value, std::is_convertible<void, a>::value },
    ISSAMEV(int) ISSAMEV(void) ISSAMEV(const void) ISSAMEV(ty::S1) ISSAMEV(int[3]) ISSAMEV(ty::F0) ISSAMEV(int*)
#define ARR(a) { #a, "array target", estd::is_convertible<int*, a>::value, std::is_convertible<int*, a>::value }, { #a, "array source", estd::is_convertible<a, int*>::value, std::is_convertible<a, int*>::value },
    ARR(int[3]) ARR(const int[3]) ARR(int(&)[3]) ARR(int[2][3]) ARR(ty::F0)
};

// common type (present or absent, and which)
template <class, class...> struct est { using type = void*****; }; template <class... T> struct est<estd::void_t<typename estd::common_type<T...>::type>, T...> { using type = typename estd::common_type<T...>::type; };
template <class, class...> struct sst { using type = void*****; }; template <class... T> struct sst<estd::void_t<typename std::common_type<T...>::type>, T...> { using type = typename std::common_type<T...>::type; };
#define CT(...) { #__VA_ARGS__, "common_type", std::is_same<typename est<void, __VA_ARGS__>::type, typename sst<void, __VA_ARGS__>::type>::value, true },
#define CT2(a) CT(a) CT(a, int) CT(a, unsigned char) CT(a, unsigned) CT(a, long long) CT(a, float) CT(a, const char*) CT(a, ty::S1) CT(a, ty::S2) CT(a, ty::S1*) CT(a, std::nullptr_t) CT(a, ty::E0) CT(a, ty::Cls) CT(a, const int&) CT(a, int, long) CT(a, short, double) CT(a, a, a) CT(a, ty::S2*, ty::S1*)
static constexpr TraitRow table_common[] = { CT2(int) CT2(char) CT2(short) CT2(unsigned short) CT2(unsigned) CT2(long) CT2(unsigned long long) CT2(bool) CT2(float) CT2(long double) CT2(const char*) CT2(char*)
    CT2(void*) CT2(ty::S1) CT2(ty::S2) CT2(ty::S1*) CT2(const ty::S2*) CT2(std::nullptr_t) CT2(ty::E0) CT2(ty::E2) CT2(ty::Cls) CT2(int&) CT2(const volatile int&&) CT2(int[3]) CT2(ty::F0) CT2(std::string) };

// invoke_result
struct Fn { int operator()(int); double operator()(char) const; const char*& operator()(int, int) const; void operator()(void*) &&; };
template <class, class...> struct eir { using type = void*****; }; template <class... T> struct eir<estd::void_t<typename estd::invoke_result<T...>::type>, T...> { using type = typename estd::invoke_result<T...>::type; };
template <class, class...> struct sir { using type = void*****; }; template <class... T> struct sir<estd::void_t<typename std::invoke_result<T...>::type>, T...> { using type = typename std::invoke_result<T...>::type; };
#define IR(...) { #__VA_ARGS__, "invoke_result", std::is_same<typename eir<void, __VA_ARGS__>::type, typename sir<void, __VA_ARGS__>::type>::value, true },
static constexpr TraitRow table_inv[] = { IR(int(*)()) IR(int(*)(), int) IR(int(&)(int), char) IR(void(*)(int&), int&) IR(void(*)(int&), int) IR(Fn, int) IR(Fn&, char) IR(const Fn, char) IR(const Fn&, int, int) IR(Fn, void*) IR(Fn&, void*) IR(Fn, ty::S1)
    IR(int ty::S1::*, ty::S1) IR(int ty::S1::*, ty::S1&) IR(int ty::S1::*, const ty::S1&) IR(int ty::S1::*, ty::S1*) IR(int ty::S1::*, ty::S2&) IR(int ty::S1::*, const ty::S2*) IR(int ty::S1::*, int)
    IR(void (ty::S1::*)(), ty::S1) IR(char (ty::S1::*)(int), ty::S2&, char) IR(char (ty::S1::*)(int), ty::S1*, char) IR(char (ty::S1::*)(int), ty::S1*) IR(int& (ty::S1::*)() const, const ty::S1&) IR(int& (ty::S1::*)(), const ty::S1&) IR(int, int) IR(ty::F1&, int, char) IR(ty::F1*, int) };

// logical combination, selection, transformation of signedness, alignment, storage
#define LG(n, ...) { #__VA_ARGS__, n, __VA_ARGS__, true },
template <class T> constexpr bool ms_ok() { using S = typename estd::make_signed<T>::type; return sizeof(S) == sizeof(T) && std::is_signed<S>::value && std::is_same<typename std::make_signed<T>::type, S>::value; }
template <class T> constexpr bool ms_size_ok() { using S = typename estd::make_signed<T>::type; return sizeof(S) == sizeof(T) && std::is_signed<S>::value && std::is_const<S>::value == std::is_const<T>::value && std::is_volatile<S>::value == std::is_volatile<T>::value; }
template <class T> constexpr bool mu_ok() { using S = typename estd::make_unsigned<T>::type; return sizeof(S) == sizeof(T) && std::is_unsigned<S>::value; }
template <class T> struct eut : estd::underlying_type<T> {};
template <size_t L, size_t A> constexpr bool st_ok() { using S = typename estd::aligned_storage<L, A>::type; return sizeof(S) >= L && alignof(S) % A == 0 && sizeof(S) < L + A; }
using tt = estd::true_type; using ff = estd::false_type; struct T7 { static constexpr bool value = true; static constexpr int id = 7; }; struct F8 { static constexpr bool value = false; static constexpr int id = 8; };
static constexpr TraitRow table_misc[] = {
    LG("conjunction", estd::conjunction<>::value) LG("conjunction", !estd::conjunction<ff>::value) LG("conjunction", estd::conjunction<tt, tt, T7>::id == 7) LG("conjunction", estd::conjunction<tt, F8, T7>::id == 8)
    LG("conjunction", (!estd::conjunction<tt, tt, ff>::value)) LG("disjunction", !estd::disjunction<>::value) LG("disjunction", estd::disjunction<ff, T7, tt>::id == 7) LG("disjunction", (estd::disjunction<ff, F8>::id == 8)) LG("disjunction", (!estd::disjunction<ff, ff, ff>::value)) LG("disjunction", (estd::disjunction<ff, ff, tt>::value))
    LG("conditional", std::is_same<estd::conditional_t<true, int, char>, int>::value) LG("conditional", std::is_same<estd::conditional_t<false, int, char>, char>::value)
    LG("enable_if", std::is_same<estd::enable_if_t<true, long>, long>::value) LG("enable_if", std::is_same<estd::enable_if_t<true>, void>::value)
    LG("integral_constant", estd::integral_constant<int, -5>::value == -5 && estd::integral_constant<int, -5>() == -5 && estd::integral_constant<int, -5>()() == -5) LG("bool_constant", estd::bool_constant<true>() && !estd::bool_constant<false>()())
    LG("void_t", std::is_void<estd::void_t<int, char>>::value) LG("type_identity", std::is_same<estd::type_identity_t<const int&>, const int&>::value)
    LG("make_signed", ms_ok<unsigned char>()) LG("make_signed", ms_ok<signed char>()) LG("make_signed", ms_ok<char>()) LG("make_signed", ms_ok<unsigned short>()) LG("make_signed", ms_ok<short>()) LG("make_signed", ms_ok<unsigned>()) LG("make_signed", ms_ok<int>()) LG("make_signed", ms_ok<unsigned long>()) LG("make_signed", ms_ok<long>()) LG("make_signed", ms_ok<unsigned long long>()) LG("make_signed", ms_ok<long long>())
    LG("make_signed", ms_size_ok<wchar_t>()) LG("make_signed", ms_size_ok<char16_t>()) LG("make_signed", ms_size_ok<char32_t>()) LG("make_signed", ms_size_ok<ty::E0>()) LG("make_signed", ms_size_ok<ty::E1>()) LG("make_signed", ms_size_ok<ty::E3>()) LG("make_signed", ms_size_ok<const unsigned>()) LG("make_signed", ms_size_ok<volatile unsigned short>()) LG("make_signed", ms_size_ok<const volatile ty::E2>())
    LG("make_unsigned", mu_ok<signed char>()) LG("make_unsigned", mu_ok<short>()) LG("make_unsigned", mu_ok<int>()) LG("make_unsigned", mu_ok<long>()) LG("make_unsigned", mu_ok<long long>())
    LG("underlying_type", std::is_same<eut<ty::E1>::type, unsigned char>::value) LG("underlying_type", std::is_same<eut<ty::E2>::type, int>::value) LG("underlying_type", std::is_same<eut<ty::E3>::type, uint64_t>::value)
    LG("alignment_of", estd::alignment_of<char>::value == alignof(char)) LG("alignment_of", estd::alignment_of<ty::Al>::value == 32) LG("alignment_of", estd::alignment_of<long double>::value == alignof(long double)) LG("alignment_of", estd::alignment_of<int[3]>::value == alignof(int))
    LG("aligned_storage", st_ok<1, 1>()) LG("aligned_storage", st_ok<3, 2>()) LG("aligned_storage", st_ok<8, 8>()) LG("aligned_storage", st_ok<17, 16>()) LG("aligned_storage", st_ok<33, 64>()) LG("aligned_storage", st_ok<5, 4>())
    LG("function_traits", estd::function_traits<int(char, long)>::nargs == 2) LG("function_traits", std::is_same<estd::function_traits<int(char, long)>::return_type, int>::value) LG("function_traits", std::is_same<estd::function_traits<int(char, long&)>::arg<1>, long&>::value)
    LG("function_traits", std::is_same<estd::function_traits<void (ty::S0::*)(float) const>::class_type, ty::S0>::value) LG("function_traits", estd::function_traits<void (ty::S0::*)(float)>::is_method) LG("function_traits", std::is_same<estd::function_traits<void (ty::S0::*)(float, ty::S1*)>::arg<0>, float>::value)
};

template <size_t N> static void walk(vf::Ctx& c, const TraitRow (&t)[N])
{
    c.nt();
    size_t at = c.rng.below(N), n = 1 + c.rng.below(400);
    c.op("rows %zu..+%zu", at, n); c.mark(at * 1000 + n);
    for(size_t i = 0; i < n; i++)
    {
        const TraitRow& r = t[(at + i) % N];
        VF_REQ(r.got == r.want, "%s<%s> is %d, the standard says %d", r.trait, r.type, r.got, r.want);
        VF_EV("relations and transformations judged");
    }
    c.state(at / 64);
}
VF_GROUP_W(transformations, 30) { walk(c, table); VF_EV("walks over transformations"); }
VF_GROUP_W(reference_transformations, 20) { walk(c, table_ref); VF_EV("walks over reference and pointer additions"); }
VF_GROUP_W(relations, 40) { walk(c, table_pairs); VF_EV("walks over pairs of types"); }
VF_GROUP_W(common_types, 20) { walk(c, table_common); VF_EV("walks over common types"); }
VF_GROUP_W(invocations, 8) { walk(c, table_inv); VF_EV("walks over invocation results"); }
VF_GROUP_W(combinations, 8) { walk(c, table_misc); VF_EV("walks over combinations"); }

VF_GROUP_W(address_of, 20)
{
    c.nt();
    size_t n = 1 + c.rng.below(20), at = c.rng.below(n);
    vf::Raw<ty::Addr> a(n);
    for(size_t i = 0; i < n; i++) new ((void*)(a.p + i)) ty::Addr{(int)i};
    c.op("addressof element %zu of %zu", at, n); c.mark(at * 32 + n);
    VF_REQ(estd::addressof(a[at]) == a.p + at, "addressof is fooled by an overloaded &");
    const ty::Addr& k = a[at]; VF_REQ(estd::addressof(k) == a.p + at && estd::addressof(k)->a == (int)at, "addressof of const");
    int x[3] = {1, 2, 3}; VF_REQ((void*)estd::addressof(x) == (void*)x && estd::addressof(x[at % 3]) == x + at % 3, "addressof of plain objects");
    VF_EV("addresses taken");
}
