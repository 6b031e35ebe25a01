// Threads contending for real mutexes through every kind of lock object, under ThreadSanitizer:
// exclusion, lost updates, visibility, leaked locks
#include <estd/mutex.h>
#include <estd/thread.h>
#include <estd/vector.h>
#include <estd/string.h>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <sched.h>
#include <vf.h>
using vf::Ctx; using vf::Rng;
namespace {
struct Spin { std::atomic<bool> f{false}; void lock() { while(f.exchange(true, std::memory_order_acquire)) sched_yield(); } bool try_lock() { return !f.exchange(true, std::memory_order_acquire); } void unlock() { f.store(false, std::memory_order_release); } };
// protected data: deliberately plain
template <class M> struct Cell { M m; std::atomic<int> inside{0}; long counter = 0; long trace[64] = {}; unsigned at = 0; estd::layer1::vector<int, 64> vec; estd::layer1::string<64> str; int last = -1; long switches = 0; };
template <class M> struct World { Cell<M> cell[3]; std::atomic<int> ready{0}; int n; std::atomic<int> overlap{0}; };
inline void delay(Rng& r) { switch(r.below(8)) { case 0: sched_yield(); break; case 1: for(volatile int i = 0, n = r.below(300); i < n; i = i + 1); break; case 2: if(r.chance(1, 20)) usleep(r.below(60)); break; default: break; } }
template <class M> void critical(World<M>& w, Cell<M>& k, int id, Rng& r, long* mine)
{
    if(k.inside.fetch_add(1, std::memory_order_relaxed) != 0) w.overlap.fetch_add(1, std::memory_order_relaxed);
    long v = k.counter; delay(r); k.counter = v + 1; ++*mine;
    k.trace[k.at++ % 64] = id;
    if(k.vec.size() >= 60) k.vec.clear();
    k.vec.push_back(id);
    if(k.str.size() >= 60) k.str.clear();
    k.str += (char)('a' + id);
    if(k.last != id) { k.last = id; k.switches++; }
    k.inside.fetch_sub(1, std::memory_order_relaxed);
}
template <class M> void worker(World<M>& w, int id, uint64_t seed, int rounds, long (&mine)[3], std::string& err, unsigned (&paths)[10])
{
    Rng r(seed);
    w.ready.fetch_add(1); while(w.ready.load() < w.n) sched_yield();
    for(int i = 0; i < rounds; i++)
    {
        int ki = r.below(3); Cell<M>& k = w.cell[ki]; typedef estd::unique_lock<M> UL; unsigned p = r.below(10); paths[p]++;
        delay(r);
        switch(p)
        {
            case 0: { estd::lock_guard<M> g(k.m); critical(w, k, id, r, &mine[ki]); break; }
            case 1: { UL g(k.m); if(!g.owns_lock()) err = "no ownership after locking"; critical(w, k, id, r, &mine[ki]); break; }
            case 2: { UL g(k.m, estd::defer_lock_t{}); if(g.owns_lock()) err = "deferred lock owns"; delay(r); g.lock(); critical(w, k, id, r, &mine[ki]); break; }
            case 3: { UL g(k.m, estd::try_to_lock_t{}); if(g.owns_lock()) critical(w, k, id, r, &mine[ki]); break; }
            case 4: { k.m.lock(); UL g(k.m, estd::adopt_lock_t{}); critical(w, k, id, r, &mine[ki]); break; }
            case 5: { UL g(k.m); critical(w, k, id, r, &mine[ki]); g.unlock(); delay(r); g.lock(); critical(w, k, id, r, &mine[ki]); if(r.coin()) g.unlock(); break; }
            case 6: { UL g(k.m); UL h(std::move(g)); if(g.owns_lock() || !h.owns_lock()) err = "ownership not transferred"; critical(w, k, id, r, &mine[ki]); break; }
            case 7: { M* m; { UL g(k.m); m = g.release(); if(g.owns_lock()) err = "owns after release"; } if(m != &k.m) { err = "release names another mutex"; m = &k.m; } critical(w, k, id, r, &mine[ki]); m->unlock(); break; }
            case 8: { UL g; { UL h(k.m); g = std::move(h); } critical(w, k, id, r, &mine[ki]); break; }
            case 9: { UL g(k.m, estd::defer_lock_t{}); for(int t = 0; t < 20; t++) if(g.try_lock()) { critical(w, k, id, r, &mine[ki]); break; } else sched_yield(); break; }
        }
    }
}
template <class M> void contention(Ctx& c, const char* n)
{
    c.nt(); alarm(60);
    int threads = 2 + c.rng.below(5), rounds = 20 + c.rng.below(120);
    c.op("%s: %d threads, %d rounds", n, threads, rounds); c.mark(c.rng.s);
    World<M> w; w.n = threads;
    std::vector<estd::thread> t; std::vector<std::string> err(threads); static long mine[8][3]; static unsigned paths[8][10]; memset(mine, 0, sizeof mine); memset(paths, 0, sizeof paths);
    for(int i = 0; i < threads; i++) { uint64_t s = c.rng.next(); t.emplace_back([&w, i, s, rounds, &err] { worker(w, i, s, rounds, mine[i], err[i], paths[i]); }); }
    for(auto& x : t) x.join();
    alarm(0);
    for(auto& e : err) VF_REQ(e.empty(), "%s", e.c_str());
    VF_REQ(w.overlap == 0, "%d times two threads were inside one critical section", (int)w.overlap);
    uint64_t h = 0;
    for(int k = 0; k < 3; k++)
    {
        long want = 0; for(int i = 0; i < threads; i++) want += mine[i][k];
        VF_REQ(w.cell[k].counter == want, "%s: %ld increments under the lock, counter is %ld", n, want, w.cell[k].counter);
        VF_REQ(w.cell[k].m.try_lock(), "%s: mutex %d is still locked after every lock object is gone", n, k); w.cell[k].m.unlock();
        VF_EVN("critical sections", want); VF_EVN("handovers between threads", w.cell[k].switches);
        h = vf::hash_bytes(w.cell[k].trace, sizeof w.cell[k].trace, h + 1);
    }
    static const char* pn[] = {"guard path", "unique path", "deferred path", "try path", "adopt path", "relock path", "move path", "release path", "move assign path", "late try path"};
    for(int p = 0; p < 10; p++) for(int i = 0; i < threads; i++) VF_EVN(pn[p], paths[i][p]);
    c.state(h);
}
}
VF_GROUP_W(platform_mutex, 100) { contention<estd::mutex>(c, "estd::mutex"); }
VF_GROUP_W(spin_mutex, 50) { contention<Spin>(c, "spin lock"); }
// hand over plain data back and forth: everything written by one owner is visible to the next
VF_GROUP_W(handover, 40)
{
    c.nt(); alarm(60);
    int n = 20 + c.rng.below(200), threads = 2 + c.rng.below(3); c.op("%d items through %d consumers", n, threads); c.mark(c.rng.s);
    estd::mutex m; estd::layer1::vector<std::pair<int, std::string*>, 16> q; std::vector<std::vector<int>> got(threads); bool done = false; std::string err;
    std::vector<estd::thread> t;
    uint64_t seed = c.rng.next();
    for(int i = 0; i < threads; i++) t.emplace_back([&, i] { Rng r(seed + i); for(;;) { std::pair<int, std::string*> it(-1, nullptr); bool fin; { estd::unique_lock<estd::mutex> g(m); if(!q.empty()) { it = q.back(); q.pop_back(); } fin = done && q.empty(); } delay(r); if(it.second) { if(*it.second != std::to_string(it.first)) { estd::lock_guard<estd::mutex> g(m); err = "item " + std::to_string(it.first) + " arrived as " + *it.second; } delete it.second; got[i].push_back(it.first); } else if(fin) return; } });
    Rng r(seed ^ 99);
    for(int i = 0; i < n;) { delay(r); std::string* s = new std::string(std::to_string(i)); bool put = false; { estd::unique_lock<estd::mutex> g(m, estd::defer_lock_t{}); g.lock(); if(q.size() < 16) { q.push_back(std::make_pair(i, s)); put = true; } } if(put) i++; else delete s; }
    { estd::lock_guard<estd::mutex> g(m); done = true; }
    for(auto& x : t) x.join();
    alarm(0);
    VF_REQ(err.empty(), "%s", err.c_str());
    std::vector<int> all; for(auto& g : got) for(int x : g) all.push_back(x);
    std::vector<int> seen(n); for(int x : all) { VF_REQ(x >= 0 && x < n && !seen[x]++, "item %d delivered twice or invented", x); } VF_REQ((int)all.size() == n, "%zu of %d items delivered", all.size(), n);
    VF_EVN("items handed over", n); for(auto& g : got) c.state(vf::hash_bytes(g.data(), g.size() * sizeof(int)));
}
