#include "d_tuple.h"
#include <algorithm>
using namespace opt;
namespace {
template <int N> struct Id { enum { id = N }; };
template <class T> constexpr int id_of() { return T::id; }
// ---- visitors over type and value lists
struct Accept
{
    std::vector<std::pair<int, int>>* out; unsigned accept;
    template <size_t I, class T> bool operator()(estd::variadic::type<I, T>, int extra) const { Ctx& c = cur(); VF_EQ(extra, 23, "extra argument"); static_assert(estd::variadic::type<I, T>::index == I, "index"); out->push_back({ (int)I, id_of<T>() }); return (accept >> I & 1) != 0; }
};
struct AcceptValue
{
    std::vector<std::pair<int, int>>* out; unsigned accept;
    template <size_t I, class T, T v> bool operator()(estd::variadic::value<I, T, v>, int extra) const { Ctx& c = cur(); VF_EQ(extra, 23, "extra argument"); out->push_back({ (int)I, (int)v }); return (accept >> I & 1) != 0; }
};
void trace(const std::vector<std::pair<int, int>>& out, const std::vector<int>& ids, unsigned accept, bool reverse, long result)
{
    Ctx& c = cur();     int n = (int)ids.size(); std::vector<std::pair<int, int>> want; long r = -1;
    for(int k = 0; k < n; ++k) { int i = reverse ? n - 1 - k : k; want.push_back({ i, ids[i] }); if(accept >> i & 1) { r = i; break; } }
    VF_EQ(result, r, "visit result"); VF_REQ(out == want, "visited %zu, expected %zu steps in order", out.size(), want.size()); VF_EV(r < 0 ? "walked all" : "walk stopped");
}
template <int ...I> void walk(Ctx& c)
{
    std::vector<int> ids{ I... }; const int n = sizeof...(I); typedef estd::variadic::type_visitor<Id<I>...> V;
    for(int k = 0; k < 8; ++k)
    {
        unsigned accept = c.rng.below(4) == 0 ? 0 : c.rng.coin() ? 1u << c.rng.below(n ? n : 1) : (unsigned)c.rng.below(1u << n); accept &= (1u << n) - 1; std::vector<std::pair<int, int>> out; long r;
        r = V::visit(Accept{&out, accept}, 23); trace(out, ids, accept, false, r);
        out.clear(); r = V::visit_reverse(Accept{&out, accept}, 23); trace(out, ids, accept, true, r);
        if constexpr(sizeof...(I) != 0) { out.clear(); r = estd::variadic::values<int, I...>::visit(AcceptValue{&out, accept}, 23); trace(out, ids, accept, false, r);
            out.clear(); r = estd::experimental::forward_invoker<Id<I>...>{}.invoke(Accept{&out, accept}, 23); trace(out, ids, accept, false, r); }
        c.mark(accept * 31 + n);
    }
    c.nt();
}
// ---- queries of type and value lists, against plain arrays
template <class ...Ts> std::vector<int> ids(estd::variadic::types<Ts...>) { return { id_of<Ts>()... }; }
template <class T, T ...v> std::vector<int> ids(estd::variadic::values<T, v...>) { return { (int)v... }; }
template <class ...Ts> std::vector<int> picked(estd::variadic::types<Ts...>) { return { (int)Ts::index... }; }
template <class L, size_t ...P> std::vector<int> at(std::index_sequence<P...>) { return { id_of<typename L::template get<P>>()... }; }
template <class L, size_t ...P> std::vector<int> vat(std::index_sequence<P...>) { return { (int)L::template get<P>::value... }; }
struct Odd { template <class T, size_t> using evaluator = estd::bool_constant<(T::id & 1) != 0>; };
struct Late { template <class T, size_t I> using evaluator = estd::bool_constant<(I >= 2)>; };
struct Twice { template <class T, size_t I> using evaluator = estd::variadic::projected_result<Id<T::id * 2>, T::id % 3 != 0>; };
struct LateV { template <int v, size_t I> using evaluator = estd::bool_constant<(I >= 2)>; };
struct OddV { template <int v, size_t> using evaluator = estd::bool_constant<(v & 1) != 0>; };
template <class F> std::vector<int> keep(const std::vector<int>& l, F f) { std::vector<int> r; for(size_t i = 0; i < l.size(); ++i) if(f(l[i], i)) r.push_back(l[i]); return r; }
template <class F> std::vector<int> where(const std::vector<int>& l, F f) { std::vector<int> r; for(size_t i = 0; i < l.size(); ++i) if(f(l[i], i)) r.push_back((int)i); return r; }
void eq(const std::vector<int>& a, const std::vector<int>& b, const char* what) { Ctx& c = cur(); std::string x, y; for(int i : a) x += std::to_string(i) + " "; for(int i : b) y += std::to_string(i) + " "; VF_REQ(a == b, "%s: (%s), expected (%s)", what, x.c_str(), y.c_str()); VF_EV("query"); }
template <int X, int ...I> void find_one()
{
    Ctx& c = cur();     std::vector<int> l{ I... }; long n = (long)std::count(l.begin(), l.end(), X); typedef estd::internal::first_index_of_type<Id<X>, Id<I>...> F;
    unsigned matches = F::detail::value; VF_EQ((long)matches, n, "matches of a type"); if constexpr(((I == X) || ...)) { unsigned ix = F::index; VF_EQ((long)ix, (long)(std::find(l.begin(), l.end(), X) - l.begin()), "first index of a type"); }
    if constexpr((0 + ... + (I == X)) == 1) { unsigned ix = estd::internal::single_index_of_type<Id<X>, Id<I>...>::index; VF_EQ((long)ix, (long)(std::find(l.begin(), l.end(), X) - l.begin()), "single index of a type"); }
    typedef estd::variadic::types<Id<I>...> T; eq(ids(typename T::template where<estd::internal::is_same_selector<Id<X>>>()), keep(l, [](int v, size_t) { return v == X; }), "where is_same"); eq(picked(typename T::template selector<estd::internal::is_same_selector<Id<X>>>::selected()), where(l, [](int v, size_t) { return v == X; }), "selected is_same");
    typedef estd::variadic::values<int, I...> V; if constexpr(sizeof...(I) != 0) { VF_EQ((bool)V::template contains<X>(), n != 0, "values contain"); eq(ids(typename V::template where<estd::internal::is_same_value_selector<int, X>>()), keep(l, [](int v, size_t) { return v == X; }), "where same value"); }
}
template <int ...I> void queries()
{
    Ctx& c = cur();     typedef estd::variadic::types<Id<I>...> T; typedef estd::variadic::values<int, I...> V; std::vector<int> l{ I... };
    VF_EQ((long)T::size(), (long)l.size(), "size"); VF_EQ((bool)T::empty(), l.empty(), "empty"); VF_EQ((long)V::size(), (long)l.size(), "size");
    eq(at<T>(std::make_index_sequence<sizeof...(I)>()), l, "get"); eq(vat<V>(std::make_index_sequence<sizeof...(I)>()), l, "values get");
    { std::vector<int> p = l; p.insert(p.begin(), 77); eq(ids(typename T::template prepend<Id<77>>()), p, "prepend"); eq(ids(typename V::template prepend<77>()), p, "values prepend"); p = l; p.push_back(78); eq(ids(typename T::template append<Id<78>>()), p, "append"); eq(ids(typename V::template append<78>()), p, "values append"); }
    if constexpr(sizeof...(I) != 0) { VF_EQ(id_of<typename T::first>(), l.front(), "first"); VF_EQ(id_of<typename T::last>(), l.back(), "last"); VF_EQ((int)V::first(), l.front(), "values first"); }
    if constexpr(sizeof...(I) == 1) { VF_EQ(id_of<typename T::single>(), l.front(), "single"); VF_EQ((int)V::single(), l.front(), "values single"); }
    auto odd = [](int v, size_t) { return (v & 1) != 0; }; auto late = [](int, size_t i) { return i >= 2; }; auto third = [](int v, size_t) { return v % 3 != 0; };
    eq(ids(typename T::template where<Odd>()), keep(l, odd), "where odd"); eq(ids(typename T::template where<Late>()), keep(l, late), "where index"); typedef typename T::template selector<Odd> S; eq(ids(typename S::indices()), where(l, odd), "indices"); eq(picked(typename S::selected()), where(l, odd), "selected");
    typedef typename T::template selector<Late> S2; eq(ids(typename S2::indices()), where(l, late), "indices"); typedef typename T::template selector<Twice> S3; std::vector<int> tw = keep(l, third); eq(ids(typename S3::types()), tw, "projected sources"); for(int& x : tw) x *= 2; eq(ids(typename S3::projected()), tw, "projected");
    if constexpr(sizeof...(I) != 0) { eq(ids(typename V::template where<OddV>()), keep(l, odd), "values where"); eq(ids(typename V::template where<LateV>()), keep(l, late), "values where index"); bool a = S::all, b = S2::all; VF_EQ(a, keep(l, odd).size() == l.size(), "all"); VF_EQ(b, keep(l, late).size() == l.size(), "all"); }
    find_one<0, I...>(); find_one<1, I...>(); find_one<2, I...>(); find_one<5, I...>(); find_one<9, I...>();
}
template <class T, T ...v> std::vector<long long> vals(estd::integer_sequence<T, v...>) { return { (long long)v... }; }
template <size_t N> void sequences()
{
    Ctx& c = cur();     auto a = vals(estd::make_index_sequence<N>()), b = vals(estd::make_integer_sequence<signed char, N>()), r = vals(estd::make_reverse_index_sequence<N>());
    VF_EQ((long)a.size(), (long)N, "make_index_sequence size"); VF_EQ((long)b.size(), (long)N, "make_integer_sequence size"); VF_EQ((long)r.size(), (long)N, "reverse size");
    for(size_t i = 0; i < N; ++i) { VF_EQ(a[i], (long long)i, "make_index_sequence"); VF_EQ(b[i], (long long)i, "make_integer_sequence"); VF_EQ(r[i], (long long)(N - 1 - i), "make_reverse_index_sequence"); VF_EV("sequence"); }
}
template <size_t ...N> void all_sequences(std::index_sequence<N...>) { (sequences<N>(), ...); }
}
VF_REG("walk<>", 5, walk<>); VF_REG("walk<1>", 10, walk<1>); VF_REG("walk<3,3>", 15, (walk<3, 3>)); VF_REG("walk<5,2,5,2>", 30, (walk<5, 2, 5, 2>)); VF_REG("walk<0..8>", 40, (walk<0, 1, 2, 3, 4, 5, 6, 7, 8>)); VF_REG("walk<9,9,0,1,7,7,1>", 30, (walk<9, 9, 0, 1, 7, 7, 1>));
VF_GROUP_W(queries, 4)
{
    queries<>(); queries<0>(); queries<1>(); queries<1, 1>(); queries<0, 1>(); queries<1, 0>(); queries<1, 2, 1>(); queries<2, 1, 2, 2>(); queries<5, 9, 0, 1, 2, 3, 4>(); queries<9, 9, 9, 9>(); queries<0, 2, 4, 6, 8>(); queries<1, 3, 5, 7, 9, 11>(); queries<3, 6, 9, 1>(); queries<7, 5, 5, 5, 2, 2, 9, 1>();
    all_sequences(std::make_index_sequence<41>()); c.nt(); c.mark(c.rng.below(2));
}
