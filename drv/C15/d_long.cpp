// lists of hundreds to thousands of nodes: everything that walks, counts or removes runs far beyond byte sized totals
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include "d_list.h"
using namespace opt;
namespace {
unsigned long size_of(Ctx& c) { return c.rng.chance(1, 3) ? 250 + c.rng.below(20) : 300 + c.rng.below(900); }
// intrusive, forward
template <class Node> void forward(Ctx& c)
{
    typedef estd::intrusive_forward_list<Node> L; size_t n = size_of(c); std::unique_ptr<Node[]> p(new Node[n]); Boxed<L> l; std::vector<size_t> q; std::vector<int> val(n); int kinds = 1 + (int)c.rng.below(5);
    for(size_t i = 0; i < n; ++i) { val[i] = (int)c.rng.below((uint64_t)kinds); p[i].t = Tracked(val[i]); }
    auto same = [&](const char* what) { size_t k = 0; for(auto i = l->begin(); i != l->end(); ++i, ++k) VF_REQ(k < q.size() && &*i == &p[q[k]], "%s: node %zu of %zu is another one", what, k, q.size()); VF_EQ(k, q.size(), "nodes iterated over"); VF_EQ(l->empty(), q.empty(), "empty"); };
    for(size_t i = 0; i < n; ++i)
    {
        if(q.empty() || c.rng.chance(1, 3)) { l->push_front(p[i]); q.insert(q.begin(), i); }
        else { size_t k = (size_t)c.rng.below(q.size()); auto w = l->begin(); w += (int)k; VF_REQ(&*w == &p[q[k]], "begin advanced by %zu", k); auto r = l->insert_after(w, p[i]); VF_REQ(&*r == &p[i], "insert_after returned another position"); q.insert(q.begin() + (long)k + 1, i); }
    }
    same("grown"); VF_EV("nodes in long lists"); c.op("%zu nodes of %d kinds", n, kinds);
    { size_t k = (size_t)c.rng.below(n); auto i = l->begin(); i += (int)k; VF_REQ(&*i == &p[q[k]], "begin + %zu", k); auto j = l->begin() + (int)k; VF_REQ(&*j == &p[q[k]], "iterator + %zu", k); }
    for(int round = 0; round < 3 && !q.empty(); ++round)
    {
        int v = val[q[(size_t)c.rng.below(q.size())]]; bool first = c.rng.chance(1, 4); size_t hits = 0, calls = 0; std::vector<size_t> keep; for(size_t i : q) if(val[i] == v && !(first && hits)) ++hits; else keep.push_back(i);
        if(c.rng.coin()) l->remove(p[q[(size_t)(std::find_if(q.begin(), q.end(), [&](size_t i) { return val[i] == v; }) - q.begin())]], first); else { l->remove_if([&](const Node& x) { ++calls; return x.t.get() == v; }, first); VF_REQ(calls <= q.size() && (first || calls == q.size()), "predicate calls %zu for %zu nodes", calls, q.size()); }
        c.op("remove%s %d: %zu of %zu", first ? " first" : "", v, hits, q.size()); q = keep; same("removed"); if(hits > 255) VF_EV("long removals");
    }
    for(size_t k = q.size() / 2; k > 0; --k) { l->pop_front(); q.erase(q.begin()); } same("popped");
    if(q.size() > 2) { size_t k = (size_t)c.rng.below(q.size() - 1); auto w = l->begin(); w += (int)k; l->erase_after(w); q.erase(q.begin() + (long)k + 1); same("erased"); }
    c.nt(); c.mark(mix(n * 31 + q.size()));
}
template <class Node> void with_back(Ctx& c)
{
    typedef estd::intrusive_forward_list_with_back<Node> L; size_t n = size_of(c), in = 0; std::unique_ptr<Node[]> p(new Node[n]); Boxed<L> l; std::deque<size_t> q; std::deque<size_t> idle; for(size_t i = 0; i < n; ++i) idle.push_back(i);
    for(size_t i = 0; i < 2 * n; ++i)
    {
        if(!idle.empty() && !c.rng.chance(1, 5)) { size_t k = idle.front(); idle.pop_front(); if(c.rng.chance(2, 3)) { l->push_back(p[k]); q.push_back(k); } else { l->push_front(p[k]); q.push_front(k); } ++in; }
        else if(!q.empty()) { VF_REQ(&l->front() == &p[q.front()], "front of a long queue"); l->pop_front(); idle.push_back(q.front()); q.pop_front(); }
        if(!q.empty()) VF_REQ(&l->front() == &p[q.front()] && &l->back() == &p[q.back()], "ends of a queue of %zu", q.size());
    }
    size_t k = 0; for(auto i = l->begin(); i != l->end(); ++i, ++k) VF_REQ(k < q.size() && &*i == &p[q[k]], "node %zu", k); VF_EQ(k, q.size(), "nodes iterated over"); VF_EV("long queues"); c.op("%zu nodes, %zu linked", n, in); c.nt(); c.mark(mix(n * 31 + k));
}
void newer(Ctx& c)
{
    typedef estd::internal::list::intrusive_forward<Typed> L; typedef L::const_iterator CI; size_t n = size_of(c); std::unique_ptr<Typed[]> p(new Typed[n]); Boxed<L> l; std::list<size_t> s; std::vector<std::list<size_t>::iterator> at;
    for(size_t i = 0; i < n; ++i)
    {
        if(s.empty() || c.rng.chance(1, 3)) { l->push_front(p[i]); s.push_front(i); at.push_back(s.begin()); }
        else { auto w = at[(size_t)c.rng.below(at.size())]; l->insert_after(CI(&p[*w]), p[i]); at.push_back(s.insert(std::next(w), i)); }
    }
    auto same = [&](const char* what) { auto e = s.begin(); size_t k = 0; for(auto i = l->begin(); !(i == l->end()); ++i, ++e, ++k) VF_REQ(e != s.end() && &*i == &p[*e], "%s: node %zu", what, k); VF_EQ(k, s.size(), "nodes iterated over"); };
    same("grown"); for(size_t x = 20; x > 0; --x) { auto e = s.begin(); std::advance(e, (long)c.rng.below(s.size() - 1)); l->erase_after(CI(&p[*e])); s.erase(std::next(e)); } same("erased"); while(s.size() > 5) { l->pop_front(); s.pop_front(); } same("popped"); VF_EV("nodes in long lists"); c.op("%zu nodes", n); c.nt(); c.mark(n);
}
// values
typedef estd::experimental::ValueNode<Tracked, estd::experimental::forward_node_base> FN; typedef estd::experimental::ValueNode<Tracked, estd::experimental::double_node_base> DN;
VF_TLS long nodes;
template <class T> struct Count : estd::experimental_std_allocator<T> { T* allocate(size_t n) { ++nodes; return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { --nodes; ::operator delete(p); } };
void owned(Ctx& c)
{
    Ledger::reset(); nodes = 0;
    {
        typedef estd::internal::forward_list<Tracked, FN, Count<FN>, estd::node_traits<FN, Count<FN>, estd::nothing_allocator<Tracked> > > L; Boxed<L> l; std::vector<int> q; size_t n = size_of(c); int kinds = 1 + (int)c.rng.below(4);
        for(size_t i = 0; i < n; ++i) { int v = (int)c.rng.below((uint64_t)kinds); const Tracked x(v); if(c.rng.coin()) l->push_front(x); else l->emplace_front(Tracked(v)); q.insert(q.begin(), v); } VF_LEDGER((long)n); VF_EQ(nodes, (long)n, "nodes allocated");
        auto same = [&] { size_t k = 0; for(auto i = l->begin(); i != l->end(); ++i, ++k) { VF_REQ(k < q.size(), "iterates beyond its elements"); const Tracked& t = *i; VF_EQ(t.get(), q[k], "element"); } VF_EQ(k, q.size(), "elements iterated over"); VF_LEDGER((long)q.size()); VF_EQ(nodes, (long)q.size(), "nodes kept"); };
        same(); int v = (int)c.rng.below((uint64_t)kinds); size_t was = q.size(); q.erase(std::remove(q.begin(), q.end(), v), q.end()); { const Tracked x(v); l->remove(x); } same(); c.op("%zu values, %zu removed", n, was - q.size()); if(was - q.size() > 255) VF_EV("long removals");
        while(!q.empty()) { l->pop_front(); q.erase(q.begin()); } same(); VF_EV("values in long lists"); c.nt(); c.mark(mix(n * 31 + was));
    }
    VF_LEDGER(0);
}
void doubly(Ctx& c)
{
    Ledger::reset(); nodes = 0;
    {
        typedef estd::inlinevalue_node_traits_new_base<DN, Count<DN>, estd::nothing_allocator<Tracked> > T; typedef estd::internal::list_base<Tracked, DN, Count<DN>, T> L; Boxed<L> l; std::deque<int> q; size_t n = size_of(c);
        for(size_t i = 0; i < n; ++i) { int v = (int)c.rng.below(1000); const Tracked x(v); if(c.rng.coin()) { l->push_front(x); q.push_front(v); } else { l->push_back(x); q.push_back(v); } }
        for(int r = 0; r < 10; ++r) { size_t p = (size_t)c.rng.below(q.size()); const Tracked x(r); auto it = l->begin(); it += (int)p; l->insert(it, x); q.insert(q.begin() + (long)p, r); }
        std::vector<DN*> del; size_t k = 0; auto last = l->begin(); for(auto i = l->begin(); i != l->end(); ++i, ++k) { VF_REQ(k < q.size(), "iterates beyond its elements"); VF_EQ((*i).get(), q[k], "element"); del.push_back(i.node()); last = i; } VF_EQ(k, q.size(), "elements iterated over");
        for(size_t i = q.size(); i-- > 0;) { VF_EQ((*last).get(), q[i], "walking back"); if(i) --last; } VF_LEDGER((long)q.size());
        for(DN* d : del) { d->~DN(); Count<DN>().deallocate(d, 1); } VF_EV("values in long lists"); c.op("%zu values", n); c.nt(); c.mark(n);
    }
    VF_LEDGER(0); VF_EQ(nodes, 0, "nodes left");
}
}
VF_REG("long/forward", 4, forward<Plain>); VF_REG("long/forward typed", 4, forward<Typed>); VF_REG("long/with back", 4, with_back<Plain>); VF_REG("long/newer", 4, newer); VF_REG("long/owned", 4, owned); VF_REG("long/doubly", 4, doubly);
