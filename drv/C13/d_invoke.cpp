#include "d_fn.h"
using namespace opt;
namespace {
struct Base { int id; int field; int add(int v) { log(id, this, v); return field += v; } int peek(int v) const { log(id + 1, this, v); return field + v; } int& ref() { log(id + 2, this, 0); return field; } int over(Uniq u) && { log(id + 3, this, u->get()); return u->get(); } };
struct Derived : Base { int more; Derived(int i, int f) : Base{ i, f }, more(0) {} };
}
VF_GROUP_W(invoke, 60)
{
    calls.clear(); Ledger::reset();
    {
        int a = (int)c.rng.range(1, 99), b = (int)c.rng.range(1, 99); Base x{ 10, a }; Derived y(20, b); const Base k{ 30, a + b }; std::unique_ptr<Base> u(new Base{ 40, b });
        VF_EQ(estd::invoke(&Base::add, x, 1), a + 1, "invoke on an object"); one_call(c, 10, &x, 1); VF_EQ(estd::invoke(&Base::add, &x, 2), a + 3, "invoke on a pointer"); one_call(c, 10, &x, 2); VF_EQ(estd::invoke(&Base::add, y, 3), b + 3, "invoke on a derived object"); one_call(c, 20, &y, 3); VF_EQ(estd::invoke(&Base::add, &y, 1), b + 4, "invoke on a derived pointer"); one_call(c, 20, &y, 1); VF_EQ(estd::invoke(&Base::add, u, 4), b + 4, "invoke on a smart pointer"); one_call(c, 40, u.get(), 4); VF_EQ(estd::invoke(&Base::add, estd::ref(x), 5), a + 8, "invoke on a reference wrapper"); one_call(c, 10, &x, 5);
        VF_EQ(estd::invoke(&Base::peek, k, 6), a + b + 6, "invoke of a const method"); one_call(c, 31, &k, 6); VF_EQ(estd::invoke(&Base::peek, &k, 7), a + b + 7, "invoke of a const method"); one_call(c, 31, &k, 7); VF_EQ(estd::invoke(&Base::peek, x, 1), a + 9, "invoke of a const method"); one_call(c, 11, &x, 1);
        VF_REQ(&estd::invoke(&Base::ref, x) == &x.field, "invoke returning a reference"); one_call(c, 12, &x, 0); VF_EQ(estd::invoke(&Base::over, std::move(x), Uniq(new Tracked(b))), b, "invoke with a move-only argument"); one_call(c, 13, &x, b);
        VF_REQ(&estd::invoke(&Base::field, x) == &x.field && &estd::invoke(&Base::field, y) == &y.field && &estd::invoke(&Base::field, &k) == &k.field && &estd::invoke(&Base::field, u) == &u->field && &estd::invoke(&Base::field, estd::ref(y)) == &y.field, "invoke of a data member"); VF_EV("data member");
        VF_EQ(estd::invoke(plain3, a), a * 3, "invoke of a function"); one_call(c, 203, nullptr, a); VF_EQ(estd::invoke(&plain5, b), b * 5, "invoke of a pointer"); one_call(c, 205, nullptr, b); Acc acc(9, a); VF_EQ(estd::invoke(acc, b), (a + b) * 100 + 9, "invoke of a functor"); one_call(c, 9, nullptr, b); VF_EQ(acc.t.get(), a + b, "functor invoked in place");
        int acc2 = b; VF_EQ(estd::invoke([](Uniq p, int& r) { r += p->get(); return r; }, Uniq(new Tracked(a)), acc2), a + b, "invoke of a lambda"); VF_EQ(acc2, a + b, "argument by reference"); VF_LEDGER(1);
        static_assert(std::is_same<estd::invoke_result_t<decltype(&Base::ref), Base&>, int&>::value && std::is_same<estd::invoke_result_t<decltype(&Base::add), Base&, int>, int>::value && std::is_same<estd::invoke_result_t<decltype(&Base::field), const Base&>, const int&>::value && std::is_same<estd::invoke_result_t<Acc&, int>, int>::value, "invoke_result");
        // reference_wrapper
        Tracked p(a), q(b); auto r = estd::ref(p); VF_REQ(&r.get() == &p && &(Tracked&)r == &p, "ref"); auto s(r); s = estd::ref(q); VF_REQ(&s.get() == &q && &r.get() == &p, "reassigned reference wrapper"); p = Tracked(7); VF_EQ(r.get().get(), 7, "ref"); const Tracked z(b); auto cr = estd::cref(z); VF_REQ(&cr.get() == &z && &estd::cref(p).get() == &p, "cref"); static_assert(std::is_same<decltype(cr.get()), const Tracked&>::value, "cref"); VF_EV("reference wrapper");
        // comparison functors
        int m = (int)c.rng.range(0, 3), n = (int)c.rng.range(0, 3); VF_REQ(estd::less<int>()(m, n) == (m < n) && estd::greater<int>()(m, n) == (m > n) && estd::equal_to<int>()(m, n) == (m == n) && estd::not_equal_to<int>()(m, n) == (m != n) && estd::equal_to<>()(m, (long)n) == (m == n) && estd::not_equal_to<>()((char)m, n) == (m != n), "comparison functors of %d and %d", m, n); VF_EV("comparison functors");
        c.mark((a * 100 + b) * 16 + m * 4 + n); c.nt();
    }
    VF_LEDGER(0);
}
namespace {
auto lam = [](int, Tracked&, const char*) -> double { return 0; };
template <class T, size_t N, bool M, class R> void traits() { static_assert(estd::function_traits<T>::nargs == N && estd::function_traits<T>::is_method == M && std::is_same<typename estd::function_traits<T>::return_type, R>::value, "function_traits"); }
template void traits<int(int), 1, false, int>(); template void traits<void(), 0, false, void>(); template void traits<decltype(lam), 3, true, double>(); template void traits<decltype(&Base::add), 1, true, int>(); template void traits<decltype(&Base::peek), 1, true, int>(); template void traits<int(&)(int), 1, false, int>(); template void traits<Acc, 1, true, int>(); template void traits<estd::detail::function<Tracked(int, char)>, 2, false, Tracked>();
static_assert(std::is_same<estd::function_traits<decltype(lam)>::arg<1>, Tracked&>::value && std::is_same<estd::function_traits<decltype(lam)>::arg<2>, const char*>::value && std::is_same<estd::function_traits<decltype(lam)>::arg<0>, int>::value, "function_traits::arg");
}
