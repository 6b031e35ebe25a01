// Concurrent read-only use of one shared object: the readers only use const operations (no synchronisation
// between them, so ThreadSanitizer sees every unprotected write), and each must obtain what a lone reader obtains.
#pragma once
#include "vf.h"
#include <thread>
#include <atomic>
#include <vector>
using namespace vf;
template <class O, class Read> void shared(Ctx& c, const char* what, const O& o, Read read)
{
    unsigned n = 2 + (unsigned)c.rng.below(3), rounds = 1 + (unsigned)c.rng.below(6); uint64_t seed = c.rng.next(); bool same = c.rng.coin();
    c.op("%s: %u readers, %u rounds%s", what, n, rounds, same ? " in step" : "");
    struct alignas(128) Slot { uint64_t h = 0; }; std::vector<Slot> got(n); std::atomic<unsigned> ready{0};
    auto work = [&](unsigned t) { Rng r(same ? seed : seed + t); uint64_t h = 0; for(unsigned i = 0; i < rounds; ++i) h = mix(h ^ (uint64_t)read(o, r)); return h; };
    std::vector<std::thread> ts;
    for(unsigned t = 0; t < n; ++t) ts.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < n) {} got[t].h = work(t); });
    for(auto& t : ts) t.join();
    for(unsigned t = 0; t < n; ++t) VF_REQ(got[t].h == work(t), "%s: reader %u of %u obtained something else than alone", what, t, n);
    if(same) for(unsigned t = 1; t < n; ++t) VF_REQ(got[t].h == got[0].h, "%s: readers disagree", what);
    VF_EVN("concurrent readers", n); VF_EVN("concurrent reads", n * rounds); VF_EV(what); c.state(got[0].h); c.mark(got[0].h); c.nt();
}
struct H { uint64_t v = 1; template <class T> void operator()(const T& x) { v = mix(v ^ (uint64_t)x); } operator uint64_t() const { return v; } };
