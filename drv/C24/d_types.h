// The population of types the trait checks run over
#pragma once
#include <estd/type_traits.h>
#include <estd/limits.h>
#include <estd/string.h>
#include <estd/functional.h>
#include <type_traits>
#include <memory>
#include <vf.h>

namespace ty {
enum E0 { e0a }; enum E1 : unsigned char { e1a }; enum class E2 { a }; enum class E3 : uint64_t { a };
union U0 { int a; float b; };
union U1 {};
struct S0 {}; struct S1 { int x; }; struct S2 : S1 {}; struct S3 { virtual ~S3() {} }; struct S4 final : S3 {};
struct SEmptyBase : S0 {}; struct SBit { int : 0; }; struct SAbs { virtual void f() = 0; };
struct SPriv : private S1 {}; struct L1 : S1 {}; struct L2 : S1 {}; struct SAmb : L1, L2 {}; struct SVirt : virtual S1 {};
class Cls { int y; public: Cls(int); explicit Cls(const char*); operator int() const; };
struct ConvTo { operator S1() const; operator const char*() const; };
struct FromS1 { FromS1(S1); };
struct NoCopy { NoCopy(); NoCopy(const NoCopy&) = delete; };
struct Expl { explicit operator bool() const; };
struct PrivDtor { private: ~PrivDtor(); };
template <class T> struct Tmpl { T v; };
struct Addr { int a; Addr* operator&() { return nullptr; } const Addr* operator&() const { return nullptr; } };
struct alignas(32) Al { char c; };
using F0 = void(); using F1 = int(int, char); using F2 = int(int) const; using F3 = void() volatile; using F4 = void() const volatile;
using F5 = void() &; using F6 = void() &&; using F7 = int(int) const &; using F8 = void() noexcept; using F9 = void(int) const && noexcept;
using FV = int(const char*, ...); using FVC = int(...) const; using FVN = void(int, ...) noexcept;
}
#ifdef __cpp_char8_t
#define TY_CHAR8
#endif
// object, reference, function, void types alike
#define TY_BASIC(X) \
 X(bool) X(char) X(signed char) X(unsigned char) X(wchar_t) X(char16_t) X(char32_t) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) \
 X(long long) X(unsigned long long) X(float) X(double) X(long double) X(const int) X(volatile int) X(const volatile int) X(const bool) X(volatile double) X(const volatile unsigned long long) \
 X(int&) X(const int&) X(int&&) X(const volatile int&&) X(void) X(const void) X(volatile void) X(const volatile void) X(std::nullptr_t) X(const std::nullptr_t)
#define TY_PTR(X) \
 X(int*) X(const int*) X(int* const) X(int* volatile) X(const int* const volatile) X(void*) X(const void*) X(char**) X(char* const*) X(int*&) X(int* const&&) \
 X(ty::F0*) X(ty::F1* const) X(ty::F0&) X(ty::F1&&) X(int ty::S1::*) X(int ty::S1::* const) X(void (ty::S0::*)()) X(int (ty::S0::* const)(char) const) X(void (ty::S0::*)() noexcept) X(int (ty::S0::* volatile)(int) &&) \
 X(int[3]) X(const int[3]) X(int[]) X(const char[]) X(int[2][3]) X(const int[2][3]) X(int[][4]) X(int(&)[3]) X(const char(&)[6]) X(int(&&)[2]) X(int(*)[3]) X(int*[4]) X(ty::S1[2]) X(int ty::S1::*[2])
#define TY_CLS(X) \
 X(ty::E0) X(ty::E1) X(ty::E2) X(ty::E3) X(const ty::E0) X(const volatile ty::E2) X(ty::E2&) X(ty::E1*) X(ty::U0) X(const ty::U0) X(ty::U1) X(ty::U0&) X(ty::U1*) \
 X(ty::S0) X(ty::S1) X(const ty::S1) X(volatile ty::S0) X(ty::S2) X(ty::S3) X(ty::S4) X(ty::SEmptyBase) X(ty::SBit) X(ty::SAbs) X(ty::SPriv) X(ty::SAmb) X(ty::SVirt) X(ty::Cls) X(const ty::Cls&) X(ty::Cls&&) \
 X(ty::NoCopy) X(ty::Tmpl<int>) X(ty::Tmpl<ty::S0>) X(ty::Addr) X(ty::Al) X(ty::Expl) X(ty::ConvTo) X(ty::FromS1) X(std::string)
#define TY_FN(X) \
 X(ty::F0) X(ty::F1) X(ty::F2) X(ty::F3) X(ty::F4) X(ty::F5) X(ty::F6) X(ty::F7) X(ty::F8) X(ty::F9)
#define TY_FNV(X) X(ty::FV) X(ty::FVC) X(ty::FVN) X(ty::FV*) X(ty::FV&) X(int (ty::S0::*)(...) const)
#define TY_ALL(X) TY_BASIC(X) TY_PTR(X) TY_CLS(X) TY_FN(X)

struct TraitRow { const char* type; const char* trait; bool got, want; };
