// the threading facade itself: threads, identities, sleeping, and clocks used by several threads at once
#include "d_shared.h"
#include <estd/thread.h>
#include <estd/chrono.h>
#include <estd/mutex.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <chrono>
#include <set>
VF_GROUP_W(identities, 40)
{
    unsigned n = 2 + (unsigned)c.rng.below(6); std::vector<estd::thread::id> id(n), again(n); std::vector<estd::thread> t; std::atomic<unsigned> here{0}; c.op("%u threads", n); c.nt();
    for(unsigned i = 0; i < n; ++i) t.emplace_back([&, i] { id[i] = estd::this_thread::get_id(); here.fetch_add(1); while(here.load() < n) estd::this_thread::yield(); again[i] = estd::this_thread::get_id(); });
    std::vector<estd::thread::id> seen; for(auto& x : t) seen.push_back(x.get_id()); for(auto& x : t) x.join();
    for(unsigned i = 0; i < n; ++i) { VF_REQ(id[i] == again[i], "identity changed"); VF_REQ(id[i] == seen[i], "identity differs from the one seen by the creator"); VF_REQ(id[i] != estd::this_thread::get_id(), "identity of another thread"); for(unsigned j = 0; j < i; ++j) VF_REQ(id[i] != id[j], "two live threads share an identity"); }
    VF_EVN("identities", n);
}
VF_GROUP_W(sleeping, 20)
{
    unsigned n = 1 + (unsigned)c.rng.below(3); std::vector<estd::thread> t; std::vector<int64_t> took(n), asked(n); c.nt();
    for(unsigned i = 0; i < n; ++i) { asked[i] = (int64_t)c.rng.below(3000); c.op("sleep %lld us", (long long)asked[i]); }
    for(unsigned i = 0; i < n; ++i) t.emplace_back([&, i] { auto a = std::chrono::steady_clock::now(); if(i % 2) estd::this_thread::sleep_for(estd::chrono::milliseconds((int)(asked[i] / 1000))); else estd::this_thread::sleep_for(estd::chrono::microseconds((int)asked[i])); took[i] = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - a).count(); });
    for(auto& x : t) x.join();
    for(unsigned i = 0; i < n; ++i) { VF_REQ(took[i] >= (i % 2 ? asked[i] / 1000 * 1000 : asked[i]), "slept %lld us instead of %lld", (long long)took[i], (long long)asked[i]); VF_REQ(took[i] < asked[i] + 20000000, "slept %lld us instead of %lld", (long long)took[i], (long long)asked[i]); }
    VF_EVN("sleeps", n);
}
VF_GROUP_W(clocks, 40)
{
    unsigned n = 2 + (unsigned)c.rng.below(4); std::vector<estd::thread> t; std::vector<int> bad(n); c.op("%u threads reading clocks", n); c.nt(); c.mark(c.rng.next());
    std::atomic<int64_t> high{0};
    for(unsigned i = 0; i < n; ++i) t.emplace_back([&, i] {
        auto last = estd::chrono::steady_clock::now(); 
        for(int k = 0; k < 200; ++k)
        {
            int64_t floor = high.load(std::memory_order_acquire);     // published by some thread before this reading
            auto now = estd::chrono::steady_clock::now(); if(now < last) bad[i] |= 1; last = now;
            int64_t v = (int64_t)now.time_since_epoch().count(); if(v < floor) bad[i] |= 2;
            int64_t cur = floor; while(cur < v && !high.compare_exchange_weak(cur, v, std::memory_order_release)) {}
            if((k & 31) == 0) estd::this_thread::yield();
        } });
    for(auto& x : t) x.join();
    for(unsigned i = 0; i < n; ++i) { VF_REQ(!(bad[i] & 1), "steady clock ran backwards within a thread"); VF_REQ(!(bad[i] & 2), "steady clock ran backwards between threads"); }
    VF_EVN("clock readings", n * 200);
}
