// Requests that do not fit fixed storage: whatever happens (refusal, truncation, an abort), nothing outside the
// storage is touched and no size beyond it is reported.
#pragma once
#include "vf.h"
#include <csignal>
#include <csetjmp>
namespace over {
static sigjmp_buf back; static volatile sig_atomic_t aborts;
static void on_abort(int) { aborts = aborts + 1; siglongjmp(back, 1); }
// runs f, which must not own anything, and says whether it came to its end
template <class F> bool completes(F f)
{
    volatile bool done = false; int a = aborts;
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, &old);
    // assert() writes a line for every abort
    if(!sigsetjmp(back, 1)) { f(); done = true; }
    sigaction(SIGABRT, &old, nullptr);
    return done && aborts == a;
}
}
