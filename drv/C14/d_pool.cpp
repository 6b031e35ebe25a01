#include "vf.h"
#include <estd/exp/memory/memory_pool.h>
using namespace vf;
namespace {
namespace pl = estd::experimental::memory::v1;
VF_TLS std::vector<int> gone; VF_TLS long born;
struct P { char b[4]; P(int v) { memcpy(b, &v, 4); ++born; } ~P() { gone.push_back(get()); memset(b, 0xEE, 4); } int get() const { int v; memcpy(&v, b, 4); return v; } };
template <int N> struct Pooled
{
    typedef pl::memory_pool_1<estd::layer1::shared_ptr<P>, N> Pool; typedef typename Pool::value_type M; typedef estd::layer3::shared_ptr<P> H; enum { S = 4 };
    static void run(Ctx& c)
    {
        gone.clear(); born = 0; Boxed<Pool> pool; M* m[N]; int owners[N], val[N], seq = 0, used = 0; bool held[N]; Raw<H> h(S); int at[S]; std::vector<int> want; for(int i = 0; i < N; ++i) { m[i] = nullptr; owners[i] = 0; held[i] = false; } for(int j = 0; j < S; ++j) at[j] = -2;
        auto release = [&](int i) { if(i >= 0 && --owners[i] == 0) { want.push_back(val[i]); if(!held[i]) VF_EV("pooled handle outlived master"); held[i] = false; m[i] = nullptr; --used; } };
        for(int n = 0; n < 60; ++n)
        {
            int i = (int)c.rng.below(N), j = (int)c.rng.below(S), k = (int)c.rng.below(S);
            switch(c.rng.below(5))
            {
                case 0: case 1: if(!m[i] && used < N) { M& x = pl::make_shared(*pool, ++seq); c.op("make %d", i); for(int q = 0; q < N; ++q) VF_REQ(m[q] != &x, "pool handed out a slot in use"); m[i] = &x; val[i] = seq; owners[i] = 1; held[i] = true; ++used; if(seq > N) VF_EV("pool reused"); } break;
                case 2: if(m[i] && held[i]) { c.op("reset master %d", i); m[i]->reset(); held[i] = owners[i] == 1 ? held[i] : false; release(i); } break;
                case 3: if(m[i] && held[i]) { if(at[j] != -2) { h[j].~H(); release(at[j]); at[j] = -2; } if(m[i] && held[i]) { c.op("%d: master %d", j, i); new(&h[j]) H(*m[i]); at[j] = i; ++owners[i]; } } break;
                default: if(at[j] != -2) { if(at[k] != -2 && c.rng.coin()) { c.op("%d = %d", j, k); h[j] = h[k]; int old = at[j]; at[j] = at[k]; if(at[j] >= 0) ++owners[at[j]]; release(old); } else { c.op("drop %d", j); h[j].~H(); release(at[j]); at[j] = -2; } }
            }
            VF_REQ(gone == want, "destroyed %s, expected %s", show(gone).c_str(), show(want).c_str()); VF_EQ((int)pool->count_free(), N - used, "free slots"); VF_EQ(born, seq, "constructed"); uint64_t x = 0;
            for(int q = 0; q < N; ++q) { x = x * 6 + (uint64_t)owners[q]; if(m[q] && held[q]) { VF_EQ((long)m[q]->use_count(), owners[q], "use count"); VF_EQ(m[q]->get()->get(), val[q], "object"); } } for(int q = 0; q < S; ++q) if(at[q] >= 0) { VF_EQ((long)h[q].use_count(), owners[at[q]], "use count"); VF_EQ(h[q].get()->get(), val[at[q]], "object"); } c.state(x); c.mark(x * 64 + (uint64_t)n);
        }
        for(int j = 0; j < S; ++j) if(at[j] != -2) { h[j].~H(); release(at[j]); } for(int i = 0; i < N; ++i) if(m[i]) { m[i]->reset(); release(i); } VF_REQ(gone == want, "destroyed %s, expected %s", show(gone).c_str(), show(want).c_str()); VF_EQ((int)pool->count_free(), N, "free slots"); c.nt();
    }
};
}
VF_REG("pooled 1", 10, Pooled<1>::run); VF_REG("pooled 2", 30, Pooled<2>::run); VF_REG("pooled 5", 40, Pooled<5>::run);
