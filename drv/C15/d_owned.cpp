#include "d_list.h"
using namespace opt;
namespace {
VF_TLS long nodes;      // allocated and not yet released
template <class T> struct Count : estd::experimental_std_allocator<T> { T* allocate(size_t n) { ++nodes; return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { --nodes; memset((void*)p, 0xDB, sizeof(T)); ::operator delete(p); } };
typedef estd::experimental::ValueNode<Tracked, estd::experimental::forward_node_base> FN; typedef estd::experimental::ValueNode<Tracked, estd::experimental::double_node_base> DN; typedef estd::experimental::ValueNode<std::string, estd::experimental::forward_node_base> SN;
template <class V> V val(int v); template <> Tracked val<Tracked>(int v) { return Tracked(v); } template <> std::string val<std::string>(int v) { return std::string((size_t)v * 9 + 1, (char)('a' + v)); }
template <class V, class N> void owned(Ctx& c)
{
    Ledger::reset(); nodes = 0;
    {
        typedef estd::internal::forward_list<V, N, Count<N>, estd::node_traits<N, Count<N>, estd::nothing_allocator<V> > > L; Boxed<L> l; Seq q; std::vector<const V*> at; auto live = [](long n) { return std::is_same<V, Tracked>::value ? n : 0; };
        auto check = [&] {
            VF_EQ(l->empty(), q.empty(), "empty"); Seq got; size_t n = 0; for(auto i = l->begin(); i != l->end(); ++i, ++n) { VF_REQ(n < q.size(), "iterates beyond its elements"); const V& v = *i; VF_REQ(v == val<V>(q[n]), "element %zu", n); VF_REQ(&v == at[n], "element %zu relocated", n); } VF_EQ(n, q.size(), "elements"); if(!q.empty()) VF_REQ(&l->front() == at[0], "front"); VF_EQ(nodes, (long)q.size(), "nodes allocated"); VF_LEDGER(live((long)q.size())); uint64_t x = 1; for(int v : q) x = x * 5 + (uint64_t)v; c.state(x); c.mark(x); };
        for(unsigned s = 15 + (unsigned)c.rng.below(40); s > 0; --s)
        {
            int v = (int)c.rng.below(4); size_t p = q.empty() ? 0 : (size_t)c.rng.below(q.size()); auto it = l->begin(); it += (int)p;
            switch(c.rng.below(10))
            {
                case 0: { c.op("push_front %d", v); const V x = val<V>(v); l->push_front(x); q.insert(q.begin(), v); at.insert(at.begin(), &*l->begin()); break; }
                case 1: { c.op("push_front move %d", v); V x = val<V>(v); long cp = Ledger::copies; l->push_front(std::move(x)); VF_EQ(Ledger::copies - cp, 0, "copies made by a moving push"); q.insert(q.begin(), v); at.insert(at.begin(), &*l->begin()); VF_EV("push front"); break; }
                case 2: { c.op("emplace %d", v); l->emplace_front(val<V>(v)); q.insert(q.begin(), v); at.insert(at.begin(), &*l->begin()); VF_EV("emplaced"); break; }
                case 3: case 4: if(!q.empty()) { c.op("insert %d after %zu", v, p); const V x = val<V>(v); auto r = l->insert_after(it, x); VF_REQ(*r == x, "insert_after returned another position"); q.insert(q.begin() + (long)p + 1, v); at.insert(at.begin() + (long)p + 1, &*r); VF_EV("inserted"); } break;
                case 5: if(!q.empty()) { c.op("pop_front"); l->pop_front(); q.erase(q.begin()); at.erase(at.begin()); VF_EV("pop front"); } break;
                case 6: if(p + 1 < q.size()) { c.op("erase after %zu", p); auto r = l->erase_after(it); q.erase(q.begin() + (long)p + 1); at.erase(at.begin() + (long)p + 1); VF_REQ(p + 1 < q.size() ? &*r == at[p + 1] : r == l->end(), "erase_after returned another position"); VF_EV("owned erased"); } break;
                case 7: case 8: { bool first = c.rng.coin(); int hits = 0; Seq k; std::vector<const V*> ka; if(!q.empty()) v = q[p]; for(size_t i = 0; i < q.size(); ++i) if(q[i] == v && !(first && hits)) ++hits; else { k.push_back(q[i]); ka.push_back(at[i]); } c.op("remove%s %d", first ? " first" : "", v); if(c.rng.coin()) { if(q.empty() || c.rng.coin()) { const V x = val<V>(v); l->remove(x, first); } else l->remove(*it, first); } else l->remove_if([&](const V& x) { return x == val<V>(v); }, first); q = k; at = ka; if(hits > 1) VF_EV("owned removed"); break; }
                default: break;
            }
            check();
        }
        while(!q.empty()) { l->pop_front(); q.erase(q.begin()); at.erase(at.begin()); check(); } c.nt();
    }
    VF_LEDGER(0); VF_EQ(nodes, 0, "nodes left");
}
}
VF_REG("owned", 60, owned<Tracked, FN>); VF_REG("owned string", 60, owned<std::string, SN>);
// doubly linked: grows only; nodes are released by hand at the end
VF_GROUP_W(doubly, 80)
{
    Ledger::reset(); nodes = 0; std::vector<void*> all;
    {
        typedef estd::inlinevalue_node_traits_new_base<DN, Count<DN>, estd::nothing_allocator<Tracked> > T; typedef estd::internal::list_base<Tracked, DN, Count<DN>, T> L; Boxed<L> l; Seq q;
        for(unsigned s = 5 + (unsigned)c.rng.below(25); s > 0; --s)
        {
            int v = (int)c.rng.below(100); size_t p = (size_t)c.rng.below(q.size() + 1); const Tracked x(v); long cp = Ledger::copies;
            switch(c.rng.below(6))
            {
                case 0: c.op("push_front %d", v); l->push_front(x); q.insert(q.begin(), v); break;
                case 1: c.op("push_back %d", v); l->push_back(x); q.push_back(v); VF_EV("push back"); break;
                case 2: c.op("push_front move %d", v); l->push_front(Tracked(v)); VF_EQ(Ledger::copies, cp, "copies made by a moving push"); q.insert(q.begin(), v); break;
                case 3: c.op("push_back move %d", v); l->push_back(Tracked(v)); VF_EQ(Ledger::copies, cp, "copies made by a moving push"); q.push_back(v); break;
                case 4: c.op("emplace_front %d", v); l->emplace_front(v); q.insert(q.begin(), v); VF_EV("emplaced"); break;
                default: { const bool atend = p == q.size(); c.op("insert %d at %zu", v, p); auto it = l->begin(); it += (int)p; if(atend && c.rng.coin()) it = l->end(); auto r = l->insert(it, x); VF_EQ((*r).get(), v, "insert returned another position"); q.insert(q.begin() + (long)p, v); if(atend) VF_EV("double inserted at end"); VF_EV("double inserted"); }
            }
            Seq got; std::vector<const Tracked*> where; auto last = l->begin(); for(auto i = l->begin(); i != l->end(); ++i) { VF_REQ(got.size() < q.size(), "iterates beyond its elements"); got.push_back((*i).get()); where.push_back(&*i); last = i; } VF_REQ(got == q, "iterates over %s, expected %s", show(got).c_str(), show(q).c_str()); VF_REQ(&l->front() == where[0] && &l->back() == where.back(), "front or back"); VF_EQ((*last).get(), q.back(), "last");
            auto rev = last; for(size_t i = q.size(); i-- > 0;) { VF_REQ(&*rev == where[i], "walking back reached another element"); if(i) { if(c.rng.coin()) --rev; else rev--; } } VF_REQ(rev == l->begin(), "walking back ended elsewhere"); VF_EV("walked back");
            size_t i = (size_t)c.rng.below(q.size()), j = (size_t)c.rng.below(i + 1); auto a = l->begin(); a += (int)i; auto b = a - (int)j; VF_REQ(&*b == where[i - j], "iterator minus distance"); a -= (int)j; VF_REQ(&*a == where[i - j], "iterator minus distance"); VF_EQ(nodes, (long)q.size(), "nodes allocated"); VF_LEDGER((long)q.size() + 1); c.state(hash_bytes(q.data(), q.size() * sizeof(int))); c.mark(hash_bytes(q.data(), q.size() * sizeof(int)));
        }
        std::vector<DN*> del; for(auto i = l->begin(); i != l->end(); ++i) del.push_back(i.node()); for(DN* d : del) { d->~DN(); Count<DN>().deallocate(d, 1); } c.nt();
    }
    VF_LEDGER(0); VF_EQ(nodes, 0, "nodes left");
}
VF_PROBE(owned_list_drop) { Ledger::reset(); nodes = 0; { typedef estd::internal::forward_list<Tracked, FN, Count<FN>, estd::node_traits<FN, Count<FN>, estd::nothing_allocator<Tracked> > > L; L l; l.push_front(Tracked(1)); l.push_front(Tracked(2)); } VF_EQ(nodes, 0, "nodes left after the list was dropped"); VF_LEDGER(0); }
