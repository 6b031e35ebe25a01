#include "d_quiet.h"
#include <memory>
#include <string>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace quiet {
volatile bool armed; volatile unsigned allocs, frees; volatile size_t first;
static void on_malloc(const volatile void*, size_t n) { if(armed) { if(!allocs) first = n; allocs = allocs + 1; } }
static void on_free(const volatile void*) { if(armed) frees = frees + 1; }
static bool installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
}
// the monitor itself: every way of reaching the allocator is seen
VF_GROUP_W(monitor, 10)
{
    VF_REQ(quiet::installed, "allocation hooks could not be installed"); size_t n = 1 + c.rng.below(100); c.op("%zu bytes", n); c.nt(); void* volatile p;
    quiet::on(); p = malloc(n); quiet::off(); VF_REQ(quiet::allocs == 1 && quiet::first == n, "malloc unseen"); quiet::on(); free(p); quiet::off(); VF_REQ(quiet::frees == 1, "free unseen");
    quiet::on(); { std::unique_ptr<char[]> q(new char[n]); p = q.get(); } quiet::off(); VF_REQ(quiet::allocs == 1 && quiet::frees == 1, "new unseen");
    quiet::on(); p = calloc(n, 2); p = realloc(p, n * 3); free(p); quiet::off(); VF_REQ(quiet::allocs >= 2 && quiet::frees >= 1, "calloc/realloc unseen");
    quiet::on(); { std::string s(n + 60, 'x'); s += s; } quiet::off(); VF_REQ(quiet::allocs >= 2 && quiet::frees == quiet::allocs, "container growth unseen"); VF_EV("monitor proven");
}
