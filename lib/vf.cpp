#include "vf.h"
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <map>
#include <deque>
#include <set>
#include <unordered_set>
#include <exception>

namespace vf {

std::vector<Group>& groups() { static std::vector<Group> g; return g; }
std::vector<Probe>& probes() { static std::vector<Probe> p; return p; }

static std::map<std::string, uint64_t*>& evmap() { static VF_TLS std::map<std::string, uint64_t*> m; return m; }
uint64_t& event_slot(const char* name)
{
    uint64_t*& p = evmap()[name];
    if(!p) p = new uint64_t(0);
    return *p;
}

VF_TLS long Ledger::live, Ledger::constructed, Ledger::destroyed, Ledger::copies, Ledger::moves;
VF_TLS const char* Ledger::err;
bool quiet_alloc;
thread_local Ctx* current;
Ctx& cur() { return *current; }

static bool verbose;
static VF_TLS std::unordered_set<uint64_t> states, cases;
static const size_t MAX_SET = 400000;

void Ctx::op(const char* fmt, ...)
{
    char b[512];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if(n < 0) return;
    if(n > (int)sizeof b - 1) n = sizeof b - 1;
    digest = mix(digest ^ hash_bytes(b, n));
    ++ops;
    if(verbose) { fprintf(stderr, "  op %s\n", b); fflush(stderr); }
    if(trace.size() < 6000) { trace.append(b, n); trace += "; "; }
}

void Ctx::state(uint64_t h) { if(states.size() < MAX_SET) states.insert(h); }

std::string show(const void* p, size_t n)
{
    std::string r = "\"";
    const unsigned char* b = (const unsigned char*)p;
    for(size_t i = 0; i < n && i < 160; ++i)
    {
        char t[8];
        if(b[i] >= 32 && b[i] < 127 && b[i] != '"' && b[i] != '\\') r += (char)b[i];
        else { snprintf(t, sizeof t, "\\x%02x", b[i]); r += t; }
    }
    if(n > 160) r += "...";
    return r + "\"";
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char ch : s)
    {
        if(ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if(ch < 32 || ch > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", ch); r += t; }
        else r += (char)ch;
    }
    return r + "\"";
}

struct Viol { std::string group; uint64_t index; std::string msg, trace; };
static VF_TLS std::vector<Viol> viols;

void Ctx::fail(const char* file, int line, const char* fmt, ...)
{
    char b[1200];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    const char* s = strrchr(file, '/');
    char loc[256]; snprintf(loc, sizeof loc, "%s:%d: ", s ? s + 1 : file, line);
    std::string m = std::string(loc) + b;
    if(verbose) fprintf(stderr, "FAIL %s\n", m.c_str());
    viols.push_back(Viol{group, index, m, trace});
    throw Fail();
}

// progress word visible to the runner even if this process dies
struct Progress { volatile uint64_t group, index, running; };
static Progress* prog; static Progress dummy;

static void on_hang(int)
{
    static const char m[] = "\nVF-HANG: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof m - 1);
    if(current) { (void)!write(2, current->trace.data(), current->trace.size()); }
    _exit(77);
}

} // vf
using namespace vf;

static unsigned cpu_budget = 20;

static void arm(bool on)
{
    struct itimerval it; memset(&it, 0, sizeof it);
    if(on) it.it_value.tv_sec = cpu_budget;
    setitimer(ITIMER_PROF, &it, nullptr);
}

static VF_TLS std::vector<std::string> samples;

struct Result { uint64_t digest; bool failed; };
#ifdef VF_MT
static VF_TLS bool worker;      // a thread other than the one that reports progress
#else
static const bool worker = false;
#endif
static Result one(const Group& g, size_t gi, uint64_t idx, uint64_t seed)
{
    Ctx c(mix(seed) ^ mix(hash_bytes(g.name, strlen(g.name))) ^ mix(idx * 2 + 1));
    c.group = g.name; c.index = idx;
    c.digest = hash_bytes(g.name, strlen(g.name));
    if(!worker) { prog->group = gi; prog->index = idx; prog->running = 1; }
    current = &c;
    Ledger::reset();
    size_t before = viols.size();
    if(!worker) arm(true);
    try { g.fn(c); }
    catch(Fail&) {}
    catch(std::exception& e)
    {
        try { c.fail("exception", 0, "unexpected exception: %s", e.what()); } catch(Fail&) {}
    }
    if(!worker) { arm(false); prog->running = 0; }
    current = nullptr;
    if(c.nontrivial && cases.size() < MAX_SET) cases.insert(c.digest);
    if(c.nontrivial && idx < 2 && c.trace.size()) samples.push_back(std::string(g.name) + "#" + std::to_string(idx) + ": " + c.trace.substr(0, 400));
    return Result{c.digest, viols.size() != before};
}

#ifdef VF_MT
#include <thread>
#include <atomic>
#include <memory>
// Runs the cases of one group in several threads at once, then alone, and compares what each saw.
static uint64_t threaded(const Group& g, size_t gi, const std::vector<uint64_t>& idx, uint64_t seed, unsigned nt)
{
    struct Slot { std::vector<Result> r; std::vector<Viol> v; std::map<std::string, uint64_t> ev; };
    std::vector<std::unique_ptr<Slot>> slots;
    for(unsigned t = 0; t < nt; ++t) slots.emplace_back(new Slot);
    prog->group = gi; prog->index = idx.size() ? idx[0] : 0; prog->running = 1;
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    arm(true);
    for(unsigned t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            worker = true;
            Slot& s = *slots[t];
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < nt) {}
            for(uint64_t i : idx) s.r.push_back(one(g, gi, i, seed));
            s.v = viols;
            for(auto& e : evmap()) s.ev[e.first] = *e.second;
        });
    for(auto& t : ts) t.join();
    arm(false);
    prog->running = 0;
    uint64_t evals = 0;
    for(size_t k = 0; k < idx.size(); ++k)
    {
        size_t nv = viols.size();
        Result solo = one(g, gi, idx[k], seed);
        bool again = one(g, gi, idx[k], seed).digest == solo.digest;   // some histories contain addresses
        viols.resize(nv);       // what a thread sees alone is the business of the other properties
        ++evals;
        VF_EV("mt: cases also run alone");
        if(again) VF_EV("mt: histories comparable");
        for(unsigned t = 0; t < nt; ++t)
        {
            ++evals;
            const Result& r = slots[t]->r[k];
            if(r.failed && !solo.failed)
                for(auto& v : slots[t]->v) if(v.index == idx[k]) { viols.push_back(v); viols.back().msg = "while other threads ran the same case on their own objects: " + v.msg; break; }
            if(!r.failed && !solo.failed && again && r.digest != solo.digest)
                viols.push_back(Viol{g.name, idx[k], "mt: the observed history differs from the one obtained by running alone", ""});
        }
        if(viols.size() >= 5) break;
    }
    for(auto& s : slots) for(auto& e : s->ev) event_slot(e.first.c_str()) += e.second;
    event_slot("mt: threads run") += nt;
    return evals;
}
#endif

int main(int argc, char** argv)
{
    uint64_t seed = 1, cases_n = 100, only = ~0ull, from_g = 0, from_i = 0;
    unsigned shard = 0, shards = 1;
    std::string out, progf, group, probe;
    bool list = false;
    [[maybe_unused]] unsigned threads = 3;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") seed = strtoull(nx(), 0, 10);
        else if(a == "--cases") cases_n = strtoull(nx(), 0, 10);
        else if(a == "--shard") shard = atoi(nx());
        else if(a == "--shards") shards = atoi(nx());
        else if(a == "--out") out = nx();
        else if(a == "--prog") progf = nx();
        else if(a == "--group") group = nx();
        else if(a == "--case") only = strtoull(nx(), 0, 10);
        else if(a == "--from-group") from_g = strtoull(nx(), 0, 10);
        else if(a == "--from-index") from_i = strtoull(nx(), 0, 10);
        else if(a == "--probe") probe = nx();
        else if(a == "--verbose") verbose = true;
        else if(a == "--cpu") cpu_budget = atoi(nx());
        else if(a == "--threads") threads = atoi(nx());
        else if(a == "--list") list = true;
    }
    if(list)
    {
        for(auto& g : groups()) printf("group %s %u\n", g.name, g.weight);
        for(auto& p : probes()) printf("probe %s\n", p.name);
        return 0;
    }
    signal(SIGPROF, on_hang);
    prog = &dummy;
    if(progf.size())
    {
        int fd = open(progf.c_str(), O_RDWR | O_CREAT, 0644);
        if(fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
        {
            void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(m != MAP_FAILED) prog = (Progress*)m;
        }
        if(fd >= 0) close(fd);
    }
    uint64_t evaluations = 0;
    if(probe.size())
    {
        for(auto& p : probes()) if(probe == p.name)
        {
            Group g{p.name, p.fn, 1};
            prog->running = 1;
            one(g, 0, 0, 1);
            ++evaluations;
        }
        if(!evaluations) return 3;
    }
    else for(size_t gi = from_g; gi < groups().size(); ++gi)
    {
        const Group& g = groups()[gi];
        if(group.size() && group != g.name) continue;
#ifdef VF_MT
        {
            std::vector<uint64_t> idx;
            uint64_t n = (cases_n * g.weight + 99) / 100;
            if(only != ~0ull) for(unsigned k = 0; k < 20; ++k) idx.push_back(only + (k % 2 ? 0 : k));    // a race gets several chances
            else if(!(gi == from_g && from_i)) for(uint64_t i = shard; i < n; i += shards) idx.push_back(i);
            evaluations += threaded(g, gi, idx, seed, threads);
            if(viols.size() >= 5) goto done;
            continue;
        }
#endif
        if(only != ~0ull) { one(g, gi, only, seed); ++evaluations; continue; }
        uint64_t n = (cases_n * g.weight + 99) / 100;
        uint64_t start = (gi == from_g && from_i) ? from_i : shard;
        for(uint64_t idx = start; idx < n; idx += shards)
        {
            one(g, gi, idx, seed);
            ++evaluations;
            if(viols.size() >= 5) goto done;
        }
    }
done:
    if(out.size())
    {
        FILE* f = fopen(out.c_str(), "w");
        if(!f) return 3;
        fprintf(f, "{\"evaluations\": %llu, \"events\": {", (unsigned long long)evaluations);
        bool first = true;
        for(auto& e : evmap()) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(e.first).c_str(), (unsigned long long)*e.second); first = false; }
        fprintf(f, "}, \"samples\": [");
        first = true;
        for(auto& s : samples) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
        fprintf(f, "], \"violations\": [");
        first = true;
        for(auto& v : viols)
        {
            fprintf(f, "%s{\"group\": %s, \"index\": %llu, \"msg\": %s, \"trace\": %s}", first ? "" : ", ",
                jstr(v.group).c_str(), (unsigned long long)v.index, jstr(v.msg).c_str(), jstr(v.trace).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((out + ".set").c_str(), "wb");
        if(f)
        {
            uint64_t n = cases.size(); fwrite(&n, 8, 1, f);
            for(uint64_t h : cases) fwrite(&h, 8, 1, f);
            n = states.size(); fwrite(&n, 8, 1, f);
            for(uint64_t h : states) fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    fflush(stdout);
    if(viols.size()) return 10;
    return 0;
}
