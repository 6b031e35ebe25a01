#include "d_list.h"
#include <estd/exp/memory/memory_pool.h>
using namespace opt;
namespace {
struct P { char b[3]; };
typedef estd::experimental::memory::v1::memory_pool_1<P, 12> Pool; typedef Pool::ext_list_type L; typedef Pool::item Item;
}
VF_GROUP_W(handles, 60)
{
    Boxed<Pool> pool; Pool::item_ext_node_traits tr(pool->node_traits().storage); L a(tr), b(tr); L* l[2] = { &a, &b }; Seq in[2]; Item* item[12]; int n = 0, used[12]; for(int i = 0; i < 12; ++i) used[i] = -1;
    while(n < 12) { item[n] = &pool->allocate_item(); for(int k = 0; k < n; ++k) VF_REQ(item[k] != item[n], "slot handed out twice"); memset(&item[n]->value, n, 3); ++n; } VF_REQ(pool->count_free() == 0, "free slots");
    auto of = [&](Item* p) { for(int i = 0; i < 12; ++i) if(item[i] == p) return i; return -1; };
    for(int s = 0; s < 40; ++s)
    {
        int w = (int)c.rng.below(2), k = (int)c.rng.below(12); Seq& q = in[w]; size_t at = q.empty() ? 0 : (size_t)c.rng.below(q.size()); auto it = l[w]->begin(); it += (int)at;
        switch(c.rng.below(5))
        {
            case 0: if(used[k] < 0) { c.op("push_front %d in %d", k, w); l[w]->push_front(*item[k]); q.insert(q.begin(), k); used[k] = w; VF_EV("handle linked"); } break;
            case 1: if(used[k] < 0 && !q.empty()) { c.op("insert %d after %d in %d", k, q[at], w); auto r = l[w]->insert_after(it, *item[k]); VF_REQ(&*r == item[k], "insert_after returned another position"); q.insert(q.begin() + (long)at + 1, k); used[k] = w; } break;
            case 2: if(!q.empty()) { c.op("pop_front %d", w); used[q[0]] = -1; l[w]->pop_front(); q.erase(q.begin()); } break;
            case 3: if(at + 1 < q.size()) { c.op("erase after %d", q[at]); used[q[at + 1]] = -1; l[w]->erase_after(it); q.erase(q.begin() + (long)at + 1); } break;
            default: if(!q.empty()) { int bit = (int)c.rng.below(3), seen = 0; bool first = c.rng.coin(); Seq keep; int hits = 0; for(int x : q) if(x % 3 == bit && !(first && hits)) { ++hits; used[x] = -1; } else keep.push_back(x); c.op("remove_if %% 3 == %d in %d", bit, w); l[w]->remove_if([&](Item& x) { ++seen; return of(&x) % 3 == bit; }, first); VF_REQ(first || seen == (int)q.size(), "predicate called %d times", seen); q = keep; }
        }
        uint64_t x = 1; for(int z = 0; z < 2; ++z) { VF_EQ(l[z]->empty(), in[z].empty(), "empty"); if(!in[z].empty()) VF_REQ(&l[z]->front() == item[in[z][0]], "front"); Seq got; for(auto i = l[z]->begin(); i != l[z]->end(); ++i) { got.push_back(of(&*i)); if(got.size() > in[z].size()) break; } VF_REQ(got == in[z], "iterates over %s, expected %s", show(got).c_str(), show(in[z]).c_str()); for(int k2 : in[z]) x = x * 13 + (uint64_t)k2 + 1; x *= 13; } c.state(x); c.mark(x);
        for(int i = 0; i < 12; ++i) for(int j = 0; j < 3; ++j) VF_REQ(((char*)&item[i]->value)[j] == (char)i, "payload of %d changed", i); VF_REQ(pool->count_free() == 0, "free slots");
    }
    c.nt();
}
