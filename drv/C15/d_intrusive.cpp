#include "d_list.h"
using namespace opt;
namespace {
template <class Node> struct Pool { enum { N = 9 }; Raw<Node> n; Pool() : n(N) { for(int i = 0; i < N; ++i) new(&n[i]) Node(); } ~Pool() { for(int i = 0; i < N; ++i) n[i].~Node(); } Node& operator[](int i) { return n[(size_t)i]; } int of(const Node* p) { for(int i = 0; i < N; ++i) if(&n[(size_t)i] == p) return i; return -1; } };
template <class L> struct Peek;
// what a list iterates over
template <class L, class Node> void same(Ctx& c, L& l, Pool<Node>& p, const Seq& want)
{
    VF_EQ(l.empty(), want.empty(), "empty"); if(!want.empty()) VF_REQ(&l.front() == &p[want[0]], "front is node %d, expected %d", p.of(&l.front()), want[0]);
    Seq got; for(auto i = l.begin(); i != l.end(); ++i) { int k = p.of(&*i); VF_REQ(k >= 0 && got.size() <= want.size(), "iterates beyond its nodes after %s", show(got).c_str()); got.push_back(k); } VF_REQ(got == want, "iterates over %s, expected %s", show(got).c_str(), show(want).c_str());
    Seq post; auto q = l.begin(); while(!(q == l.end())) { post.push_back(p.of(&*q++)); if(post.size() > want.size()) break; } VF_REQ(post == want, "post increment visits %s", show(post).c_str()); Seq range; for(Node& n : l) { range.push_back(p.of(&n)); if(range.size() > want.size()) break; } VF_REQ(range == want, "range for visits %s", show(range).c_str());
}
struct Hist
{
    Ctx& c; enum { N = 9 }; Seq in[2]; int where[N]; explicit Hist(Ctx& c_) : c(c_) { for(int i = 0; i < N; ++i) where[i] = -1; }
    int unlinked() { Seq f; for(int i = 0; i < N; ++i) if(where[i] < 0) f.push_back(i); return f.empty() ? -1 : f[(size_t)c.rng.below(f.size())]; }
    void gone(int k, bool relink = true) { where[k] = -1; (void)relink; }
    void note() { uint64_t x = 1; for(int w = 0; w < 2; ++w) { for(int k : in[w]) x = x * 11 + (uint64_t)k + 1; x = x * 11; } c.state(x); c.mark(x); }
};
template <class Node> void set(Pool<Node>& p, int k, int v) { p[k].t = Tracked(v); }
template <class Node> void forward(Ctx& c)
{
    Ledger::reset();
    {
        typedef estd::intrusive_forward_list<Node> L; Pool<Node> p; Boxed<L> a, b; L* l[2] = { a.p, b.p }; Hist h(c); int val[Hist::N]; bool used[Hist::N] = {}; for(int i = 0; i < Hist::N; ++i) { val[i] = (int)c.rng.below(4); set(p, i, val[i]); } Ledger::reset_counts();
        for(unsigned s = 15 + (unsigned)c.rng.below(50); s > 0; --s)
        {
            int w = (int)c.rng.below(2); Seq& q = h.in[w]; int k = h.unlinked(); size_t at = q.empty() ? 0 : (size_t)c.rng.below(q.size()); auto it = l[w]->begin(); if(!q.empty()) { if(c.rng.coin()) it += (int)at; else it = l[w]->begin() + (int)at; VF_REQ(&*it == &p[q[at]] && it.node() == &p[q[at]], "advanced iterator"); }
            switch(c.rng.below(9))
            {
                case 0: case 1: if(k >= 0) { c.op("push_front %d in %d", k, w); l[w]->push_front(p[k]); q.insert(q.begin(), k); h.where[k] = w; VF_EV(used[k] ? "relinked" : "push front"); VF_EV("push front"); used[k] = true; } break;
                case 2: case 3: if(k >= 0 && !q.empty()) { c.op("insert %d after %d in %d", k, q[at], w); auto r = l[w]->insert_after(it, p[k]); VF_REQ(&*r == &p[k], "insert_after returned another position"); q.insert(q.begin() + (long)at + 1, k); h.where[k] = w; used[k] = true; VF_EV("inserted"); } break;
                case 4: if(!q.empty()) { c.op("pop_front %d", w); int g = q[0]; l[w]->pop_front(); q.erase(q.begin()); h.gone(g); VF_EV("pop front"); if(q.empty()) VF_EV("popped last"); if(c.rng.chance(1, 3)) { l[1 - w]->push_front(p[g]); h.in[1 - w].insert(h.in[1 - w].begin(), g); h.where[g] = 1 - w; VF_EV("moved between lists"); } } break;
                case 5: if(at + 1 < q.size()) { c.op("erase after %d in %d", q[at], w); auto r = l[w]->erase_after(it); int g = q[at + 1]; q.erase(q.begin() + (long)at + 1); h.gone(g); if(at + 1 < q.size()) VF_REQ(r != l[w]->end() && &*r == &p[q[at + 1]], "erase_after returned another position"); else VF_REQ(r == l[w]->end(), "erase_after at the end"); VF_EV("erased"); } break;
                default:
                {
                    if(q.empty()) break; int v = val[q[at]]; bool first = c.rng.coin(), run = false; int hits = 0; Seq keep; for(size_t i = 0; i < q.size(); ++i) { bool m = val[q[i]] == v && !(first && hits); if(m && i && val[q[i - 1]] == v && !first) run = true; if(m) { ++hits; h.gone(q[i]); } else keep.push_back(q[i]); }
                    c.op("remove%s %d in %d", first ? " first" : "", v, w); if(c.rng.coin()) { if(first) l[w]->remove(p[q[at]], true); else l[w]->remove(p[q[at]]); VF_EV("removed equal"); } else { int seen = 0; l[w]->remove_if([&](const Node& n) { ++seen; return n.t.get() == v; }, first); VF_REQ(first || seen == (int)q.size(), "predicate called %d times", seen); VF_EV("removed by predicate"); } if(first) VF_EV("removed first only"); if(run) VF_EV("removed consecutive"); q = keep;
                }
            }
            for(int x = 0; x < 2; ++x) same(c, *l[x], p, h.in[x]); VF_EQ(Ledger::copies + Ledger::moves, 0, "nodes copied or moved by the list"); VF_LEDGER(Hist::N); for(int i = 0; i < Hist::N; ++i) VF_EQ(p[i].t.get(), val[i], "payload"); h.note();
        }
        c.nt();
    }
    VF_LEDGER(0);
}
template <class Node> void with_back(Ctx& c)
{
    Ledger::reset();
    {
        typedef estd::intrusive_forward_list_with_back<Node> L; Pool<Node> p; Boxed<L> a, b; L* l[2] = { a.p, b.p }; Hist h(c); bool used[Hist::N] = {}; for(int i = 0; i < Hist::N; ++i) set(p, i, i); Ledger::reset_counts();
        for(unsigned s = 15 + (unsigned)c.rng.below(50); s > 0; --s)
        {
            int w = (int)c.rng.below(2); Seq& q = h.in[w]; int k = h.unlinked();
            switch(c.rng.below(5))
            {
                case 0: if(k >= 0) { c.op("push_front %d in %d", k, w); l[w]->push_front(p[k]); q.insert(q.begin(), k); h.where[k] = w; used[k] = true; } break;
                case 1: case 2: if(k >= 0) { c.op("push_back %d in %d", k, w); l[w]->push_back(p[k]); q.push_back(k); h.where[k] = w; VF_EV("push back"); if(used[k]) VF_EV("relinked"); used[k] = true; } break;
                default: if(!q.empty()) { c.op("pop_front %d", w); int g = q[0]; l[w]->pop_front(); q.erase(q.begin()); h.gone(g); if(q.empty()) VF_EV("popped last"); if(c.rng.chance(1, 3)) { l[1 - w]->push_back(p[g]); h.in[1 - w].push_back(g); h.where[g] = 1 - w; VF_EV("moved between lists"); } }
            }
            for(int x = 0; x < 2; ++x) { same(c, *l[x], p, h.in[x]); if(!h.in[x].empty()) VF_REQ(&l[x]->back() == &p[h.in[x].back()], "back is node %d, expected %d", p.of(&l[x]->back()), h.in[x].back()); } VF_EQ(Ledger::copies + Ledger::moves, 0, "nodes copied or moved by the list"); VF_LEDGER(Hist::N);
            auto f = estd::find_if(l[w]->begin(), l[w]->end(), [&](Node& n) { return n.t.get() == 4; }); bool has = std::find(q.begin(), q.end(), 4) != q.end(); VF_REQ(has ? f != l[w]->end() && &*f == &p[4] : f == l[w]->end(), "find_if over the list"); h.note();
        }
        c.nt();
    }
    VF_LEDGER(0);
}
// the newer intrusive list
void newer(Ctx& c)
{
    Ledger::reset();
    {
        typedef estd::internal::list::intrusive_forward<Typed> L; typedef L::const_iterator CI; Pool<Typed> p; Boxed<L> a, b; L* l[2] = { a.p, b.p }; Hist h(c); for(int i = 0; i < Hist::N; ++i) set(p, i, i); Ledger::reset_counts();
        for(unsigned s = 15 + (unsigned)c.rng.below(50); s > 0; --s)
        {
            int w = (int)c.rng.below(2); Seq& q = h.in[w]; int k = h.unlinked(); size_t at = q.empty() ? 0 : (size_t)c.rng.below(q.size());
            switch(c.rng.below(8))
            {
                case 0: case 1: if(k >= 0) { c.op("push_front %d in %d", k, w); l[w]->push_front(p[k]); q.insert(q.begin(), k); h.where[k] = w; } break;
                case 2: case 3: if(k >= 0 && !q.empty()) { c.op("insert %d after %d in %d", k, q[at], w); auto r = c.rng.coin() ? l[w]->insert_after(CI(&p[q[at]]), p[k]) : L::insert_after(&p[q[at]], p[k]); VF_REQ(&*r == &p[k], "insert_after returned another position"); q.insert(q.begin() + (long)at + 1, k); h.where[k] = w; VF_EV("inserted"); } break;
                case 4: if(!q.empty()) { c.op("pop_front %d", w); int g = q[0]; l[w]->pop_front(); q.erase(q.begin()); h.gone(g); VF_EV("pop front"); } break;
                case 5: if(at + 1 < q.size()) { c.op("erase after %d in %d", q[at], w); auto r = l[w]->erase_after(CI(&p[q[at]])); int g = q[at + 1]; q.erase(q.begin() + (long)at + 1); h.gone(g); VF_REQ(at + 1 < q.size() ? &*r == &p[q[at + 1]] : r == estd::internal::list::null_iterator(), "erase_after returned another position"); VF_EV("erased"); } break;
                case 6: if(at + 1 < q.size() && k >= 0) { c.op("replace after %d with %d in %d", q[at], k, w); auto r = l[w]->replace_after(CI(&p[q[at]]), p[k]); VF_REQ(&*r == &p[k], "replace_after returned another position"); h.gone(q[at + 1]); q[at + 1] = k; h.where[k] = w; VF_EV("replaced"); } break;
                default: if(c.rng.chance(1, 4)) { c.op("clear %d", w); l[w]->clear(); for(int g : q) h.gone(g); q.clear(); VF_EV("cleared"); }
            }
            for(int x = 0; x < 2; ++x) { same(c, *l[x], p, h.in[x]); const L& cl = *l[x]; Seq cs; for(CI i = cl.cbegin(); i != cl.cend() && cs.size() <= h.in[x].size(); ++i) cs.push_back(p.of(&*i)); VF_REQ(cs == h.in[x], "const iteration visits %s", show(cs).c_str()); cs.clear(); for(CI i = cl.begin(); i != CI(cl.end()) && cs.size() <= h.in[x].size(); i++) cs.push_back(p.of(&*i)); VF_REQ(cs == h.in[x], "const iteration visits %s", show(cs).c_str()); } VF_EQ(Ledger::copies + Ledger::moves, 0, "nodes copied or moved by the list"); VF_LEDGER(Hist::N); h.note();
        }
        // circular: position before the first node
        { typedef estd::internal::list::circular_intrusive_forward<Typed> R; int n = 1 + (int)c.rng.below(Hist::N); for(int i = 0; i < n; ++i) p[i].next(&p[(i + 1) % n]); int s = (int)c.rng.below((uint64_t)n); R r(&p[s]); VF_REQ(&*r.before_begin() == &p[(s + n - 1) % n], "before_begin of a circle"); VF_EV("before begin"); }
        c.nt();
    }
    VF_LEDGER(0);
}
}
// circles longer than any small bound
void circles(Ctx& c)
{
    typedef estd::internal::list::circular_intrusive_forward<Typed> R; size_t n = 1 + (size_t)c.rng.below(c.rng.chance(1, 4) ? 700 : 40); std::unique_ptr<Typed[]> p(new Typed[n]); std::vector<size_t> at(n); for(size_t i = 0; i < n; ++i) at[i] = i;
    for(size_t i = n - 1; i > 0; --i) std::swap(at[i], at[c.rng.below(i + 1)]);
    for(size_t i = 0; i < n; ++i) p[at[i]].next(&p[at[(i + 1) % n]]);
    size_t s = (size_t)c.rng.below(n); R r(&p[at[s]]); c.op("circle of %zu", n); VF_REQ(&*r.before_begin() == &p[at[(s + n - 1) % n]], "before_begin of a circle"); VF_EV("before begin"); if(n > 64) VF_EV("long circles");
    size_t k = 0; for(auto i = r.begin(); k < n; ++i, ++k) VF_REQ(&*i == &p[at[(s + k) % n]], "step %zu round the circle", k);
    c.nt(); c.mark(mix(n * 1000 + s));
}
VF_REG("circles", 60, circles);
VF_REG("forward", 60, forward<Plain>); VF_REG("forward typed", 60, forward<Typed>); VF_REG("forward late base", 60, forward<Late>);
VF_REG("with back", 60, with_back<Plain>); VF_REG("with back typed", 60, with_back<Typed>); VF_REG("newer", 80, newer);
