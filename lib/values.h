// Value types shared by the drivers of optional, variant, expected ...: every one maps to an int and back
#pragma once
#include "vf.h"
#include <string>
#include <vector>
#include <memory>
namespace opt {
using namespace vf;
// ---- value types.  Every one maps to an int and back
struct Quiet : Tracked { Quiet(int v = 0) : Tracked(v) {} Quiet(const Quiet&) = default; Quiet(Quiet&& o) noexcept : Tracked(std::move(o)) {} Quiet& operator=(const Quiet&) = default; Quiet& operator=(Quiet&& o) noexcept { Tracked::operator=(std::move(o)); return *this; } };    // noexcept move
struct Frozen { Tracked t; const int tag; Frozen(int v) : t(v), tag(v ^ 0x55) {} Frozen(const Frozen&) = default; Frozen(Frozen&& o) : t(o.t.get()), tag(o.tag) {} bool operator==(const Frozen& o) const { return t == o.t; } bool operator!=(const Frozen& o) const { return t != o.t; } };        // not assignable
struct Strict { Tracked t; explicit Strict(int v) : t(v) {} Strict& operator=(int v) { t = Tracked(v); return *this; } Strict(const Strict&) = default; Strict(Strict&&) = default; Strict& operator=(const Strict&) = default; Strict& operator=(Strict&&) = default; };   // explicit from int, assignable from int
struct alignas(32) Wide { double d; int v; Wide(int x) : d(x), v(x) {} bool operator==(const Wide& o) const { return v == o.v; } bool operator!=(const Wide& o) const { return v != o.v; } bool operator<(const Wide& o) const { return v < o.v; } bool operator>(const Wide& o) const { return v > o.v; } bool operator<=(const Wide& o) const { return v <= o.v; } bool operator>=(const Wide& o) const { return v >= o.v; } };
enum Plain { P0, P1, P2, P3, P4, P5, P6, P7 };
enum Packed { K0, K1, K2, K3, K4, K5, K6, K7 };
inline int num(int v) { return v; }
inline int num(short v) { return v; }
inline int num(unsigned short v) { return v; }
inline int num(signed char v) { return v; }
inline int num(bool v) { return v; }
inline int num(double v) { return (int)v; }
inline int num(long long v) { return (int)v; }
inline int num(Plain v) { return v; }
inline int num(Packed v) { return v; }
inline int num(const Tracked& t) { return t.get(); }
inline int num(const Frozen& f) { return f.tag == (f.t.get() ^ 0x55) ? f.t.get() : -888; }
inline int num(const Strict& s) { return s.t.get(); }
inline int num(const Wide& w) { return w.d == w.v && ((uintptr_t)&w % alignof(Wide)) == 0 ? w.v : -888; }
inline int num(const std::string& s) { return s.empty() ? -77 : atoi(s.c_str() + 30) - 1000; }
inline int num(const std::vector<int>& s) { return s.empty() ? -77 : s[0]; }
template <class T> struct Make { static T of(int v) { return T(v); } };
template <> struct Make<std::string> { static std::string of(int v) { return std::string(30, 'x') + std::to_string(v + 1000); } };
template <> struct Make<std::vector<int>> { static std::vector<int> of(int v) { return std::vector<int>(5, v); } };

template <class T> constexpr bool tracked() { return std::is_base_of<Tracked, T>::value || std::is_same<T, Frozen>::value || std::is_same<T, Strict>::value; }
}
