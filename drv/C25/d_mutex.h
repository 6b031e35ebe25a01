// Instrumented mutexes: they record every acquisition and release and reject anything a mutex must never see
#pragma once
#include <estd/mutex.h>
#include <estd/chrono.h>
#include <memory>
#include <vf.h>
namespace mx {
using vf::Ctx;
struct Refused {};
struct Mon
{
    bool held = false, timed_ok = true, try_ok = true, throws = false; unsigned locks = 0, unlocks = 0, tries = 0, timed = 0; long long last_us = -1; const char* err = nullptr;
    Mon() {} Mon(const Mon&) = delete; Mon& operator=(const Mon&) = delete;
    ~Mon() { if(held) vf::cur().op("mutex destroyed while held"); }
    void bad(const char* w) { if(!err) err = w; }
    void lock() { if(throws) throw Refused {}; if(held) bad("blocking lock of a mutex this thread holds (deadlock)"); held = true; ++locks; }
    bool try_lock() { ++tries; if(held || !try_ok) return false; held = true; ++locks; return true; }
    void unlock() { if(!held) bad("unlock of a mutex that is not locked"); held = false; ++unlocks; }
    template <class R, class P> bool try_lock_for(const estd::chrono::duration<R, P>& d)
    { ++timed; last_us = estd::chrono::duration_cast<estd::chrono::microseconds>(d).count(); if(held || !timed_ok) return false; held = true; ++locks; return true; }
    template <class C, class D> bool try_lock_until(const estd::chrono::time_point<C, D>&) { ++timed; if(held || !timed_ok) return false; held = true; ++locks; return true; }
};
// no try_lock, no timed lock: only what lock_guard and a plain unique_lock need
struct Basic { Mon m; void lock() { m.lock(); } void unlock() { m.unlock(); } };
}
