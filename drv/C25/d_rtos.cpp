// FreeRTOS-backed mutexes, semaphores, queues and event groups, run on the host against a simulated
// kernel (below): every kernel object checks the discipline with which it is used.
#include <deque>
#include <cstring>
#include <string>
#include <vector>
#include "FreeRTOS.h"
#include <estd/chrono.h>
#include <estd/mutex.h>
#include <estd/array.h>
#include <estd/port/freertos/mutex.h>
#include <estd/port/freertos/semaphore.h>
#include <estd/port/freertos/queue.h>
#include <estd/port/freertos/event_groups.h>
#include "../../lib/vf.h"

enum kind_t { K_BIN, K_COUNT, K_MUTEX, K_REC, K_QUEUE, K_EVENT };
struct rtos_obj { kind_t kind; unsigned count, max; int holder, depth; bool dead; unsigned item; std::deque<std::string> q; uint32_t bits; void* storage; uint8_t* buf; };

namespace {
std::vector<rtos_obj*> all; const char* err; unsigned last_wait; bool waited; int cur_task = 1; long live, created;
int other_releases;             // >0: a take that has to wait is satisfied by another task
unsigned isr_calls;
void bad(const char* m) { if(!err) err = m; }
rtos_obj* mk(kind_t k, unsigned max, unsigned n, void* st = nullptr, bool is_static = false) {
    if(is_static && !st) bad("static creation without storage");
    if(st) memset(st, 0x5A, sizeof(StaticSemaphore_t));
    auto* o = new rtos_obj{k, n, max, 0, 0, false, 0, {}, 0, st, nullptr}; all.push_back(o); ++live; ++created; return o; }
rtos_obj* use(rtos_obj* o) { static rtos_obj dummy{K_BIN,0,1,0,0,false,0,{},0,nullptr,nullptr};
    if(!o) { bad("null kernel handle"); return &dummy; }
    bool known = false; for(auto* x : all) if(x == o) known = true;
    if(!known) { bad("unknown kernel handle"); return &dummy; }
    if(o->dead) { bad("kernel object used after deletion"); return o; }
    if(o->storage) for(size_t i = 0; i < sizeof(StaticSemaphore_t); ++i) if(((unsigned char*)o->storage)[i] != 0x5A) { bad("static storage of a live kernel object was overwritten"); break; }
    return o; }
void del(rtos_obj* o) { o = use(o); if(!o->dead) { o->dead = true; --live; } }
bool wait_for(TickType_t t) { last_wait = t; if(t == 0) return false; waited = true;
    if(other_releases > 0) { --other_releases; return true; }
    if(t == portMAX_DELAY) bad("blocked forever"); return false; }
void reset_kernel() { for(auto* o : all) delete o; all.clear(); err = nullptr; last_wait = 0; waited = false; cur_task = 1; live = 0; created = 0; other_releases = 0; }
}
extern "C" {
TickType_t xTaskGetTickCount(void) { return 12345; } void vTaskDelay(TickType_t t) { last_wait = t; } void rtos_yield(void) {} TaskHandle_t xTaskGetCurrentTaskHandle(void) { return (TaskHandle_t)(uintptr_t)cur_task; }
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return mk(K_BIN, 1, 0); } SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t* s) { return mk(K_BIN, 1, 0, s, true); }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return mk(K_MUTEX, 1, 1); } SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t* s) { return mk(K_MUTEX, 1, 1, s, true); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void) { return mk(K_REC, 1, 1); } SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t* s) { return mk(K_REC, 1, 1, s, true); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t m, UBaseType_t n) { if(n > m || m == 0) bad("counting semaphore: initial above max"); return mk(K_COUNT, m, n); }
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t m, UBaseType_t n, StaticSemaphore_t* s) { if(n > m || m == 0) bad("counting semaphore: initial above max"); return mk(K_COUNT, m, n, s, true); }
static BaseType_t take_(rtos_obj* o, TickType_t t, bool rec) { o = use(o); last_wait = t;
    if((o->kind == K_REC) != rec) { bad("recursive/plain take mismatch"); return pdFALSE; }
    if(o->kind == K_QUEUE || o->kind == K_EVENT) { bad("take on something that is no semaphore"); return pdFALSE; }
    if(rec && o->holder == cur_task) { ++o->depth; return pdTRUE; }
    if(o->count == 0) { if(!wait_for(t)) return pdFALSE; if(o->holder) { o->holder = 0; o->depth = 0; } ++o->count; }
    --o->count; if(o->kind == K_MUTEX || o->kind == K_REC) { o->holder = cur_task; o->depth = 1; } return pdTRUE; }
static BaseType_t give_(rtos_obj* o, bool rec) { o = use(o);
    if((o->kind == K_REC) != rec) { bad("recursive/plain give mismatch"); return pdFALSE; }
    if(o->kind == K_MUTEX || o->kind == K_REC) { if(o->holder != cur_task) { return pdFALSE; } if(--o->depth > 0) return pdTRUE; o->holder = 0; ++o->count; return pdTRUE; }
    if(o->count >= o->max) return pdFALSE; ++o->count; return pdTRUE; }
BaseType_t xSemaphoreTake(SemaphoreHandle_t h, TickType_t t) { return take_(h, t, false); } BaseType_t xSemaphoreGive(SemaphoreHandle_t h) { return give_(h, false); }
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t h, TickType_t t) { return take_(h, t, true); } BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t h) { return give_(h, true); }
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t h, BaseType_t*) { ++isr_calls; return give_(h, false); } BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t h, BaseType_t*) { ++isr_calls; return take_(h, 0, false); }
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t h) { return use(h)->count; } TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t h) { return (TaskHandle_t)(uintptr_t)use(h)->holder; } void vSemaphoreDelete(SemaphoreHandle_t h) { del(h); }
QueueHandle_t xQueueCreate(UBaseType_t n, UBaseType_t sz) { auto* o = mk(K_QUEUE, n, 0); o->item = sz; return o; }
QueueHandle_t xQueueCreateStatic(UBaseType_t n, UBaseType_t sz, uint8_t* buf, StaticQueue_t* s) { if(!buf) bad("static queue without buffer"); auto* o = mk(K_QUEUE, n, 0, s, true); o->item = sz; o->buf = buf; return o; }
void vQueueDelete(QueueHandle_t h) { del(h); } UBaseType_t uxQueueMessagesWaiting(QueueHandle_t h) { return use(h)->q.size(); } UBaseType_t uxQueueSpacesAvailable(QueueHandle_t h) { auto* o = use(h); return o->max - o->q.size(); }
static BaseType_t qsend(rtos_obj* o, const void* p, TickType_t t) { o = use(o); last_wait = t; if(o->kind != K_QUEUE) { bad("send on something that is no queue"); return pdFALSE; }
    if(o->q.size() >= o->max) { if(!wait_for(t)) return pdFALSE; o->q.pop_front(); }
    o->q.emplace_back((const char*)p, o->item);
    if(o->buf) for(size_t i = 0; i < o->q.size(); ++i) memcpy(o->buf + i * o->item, o->q[i].data(), o->item);   // a static queue really keeps its items in the caller's buffer
    return pdTRUE; }
static BaseType_t qrecv(rtos_obj* o, void* p, TickType_t t) { o = use(o); last_wait = t; if(o->kind != K_QUEUE) { bad("receive on something that is no queue"); return pdFALSE; }
    if(o->q.empty()) { wait_for(t); return pdFALSE; } memcpy(p, o->q.front().data(), o->item); o->q.pop_front(); return pdTRUE; }
BaseType_t xQueueSend(QueueHandle_t h, const void* p, TickType_t t) { return qsend(h, p, t); } BaseType_t xQueueSendToBack(QueueHandle_t h, const void* p, TickType_t t) { return qsend(h, p, t); } BaseType_t xQueueSendFromISR(QueueHandle_t h, const void* p, BaseType_t*) { ++isr_calls; return qsend(h, p, 0); }
BaseType_t xQueueReceive(QueueHandle_t h, void* p, TickType_t t) { return qrecv(h, p, t); } BaseType_t xQueueReset(QueueHandle_t h) { use(h)->q.clear(); return pdTRUE; }
BaseType_t xQueuePeek(QueueHandle_t h, void* p, TickType_t t) { auto* o = use(h); last_wait = t; if(o->q.empty()) { wait_for(t); return pdFALSE; } memcpy(p, o->q.front().data(), o->item); return pdTRUE; } BaseType_t xQueuePeekFromISR(QueueHandle_t h, void* p) { ++isr_calls; return xQueuePeek(h, p, 0); }
BaseType_t xQueueOverwrite(QueueHandle_t h, const void* p) { auto* o = use(h); if(o->max != 1) bad("overwrite of a queue longer than one"); o->q.clear(); return qsend(h, p, 0); } BaseType_t xQueueOverwriteFromISR(QueueHandle_t h, const void* p, BaseType_t*) { ++isr_calls; return xQueueOverwrite(h, p); }
BaseType_t xQueueGetStaticBuffers(QueueHandle_t h, uint8_t** b, StaticQueue_t** s) { auto* o = use(h); *b = o->buf; *s = (StaticQueue_t*)o->storage; return o->buf ? pdTRUE : pdFALSE; }
EventGroupHandle_t xEventGroupCreate(void) { return mk(K_EVENT, 0, 0); } EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t* s) { return mk(K_EVENT, 0, 0, s, true); } void vEventGroupDelete(EventGroupHandle_t h) { del(h); }
EventBits_t xEventGroupClearBits(EventGroupHandle_t h, EventBits_t b) { auto* o = use(h); auto r = o->bits; o->bits &= ~b; return r; } BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t h, EventBits_t b) { ++isr_calls; use(h)->bits &= ~b; return pdPASS; }
EventBits_t xEventGroupSetBits(EventGroupHandle_t h, EventBits_t b) { return use(h)->bits |= b; } BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t h, EventBits_t b, BaseType_t*) { ++isr_calls; use(h)->bits |= b; return pdPASS; }
EventBits_t xEventGroupWaitBits(EventGroupHandle_t h, EventBits_t b, BaseType_t clr, BaseType_t allb, TickType_t t) { auto* o = use(h); last_wait = t; if(!b) bad("waiting for no bits"); auto r = o->bits; bool ok = allb ? (r & b) == b : (r & b) != 0; if(!ok) { wait_for(t); return r; } if(clr) o->bits &= ~b; return r; }
EventBits_t xEventGroupSync(EventGroupHandle_t h, EventBits_t sb, EventBits_t b, TickType_t t) { auto* o = use(h); last_wait = t; auto r = o->bits | sb; o->bits = r; if((r & b) == b) o->bits &= ~b; else wait_for(t); return r; }
}

namespace {
namespace fr = estd::freertos;
#define KOK(w) VF_REQ(!err, "%s: %s", w, err)

template <class M> void mutex_case(vf::Ctx& c, bool recursive, bool binary, M& m, const char* what) {
    int depth = 0; if(binary) { VF_REQ(!m.try_lock(), "%s: created binary yet available", what); VF_REQ(m.unlock(), "%s: first give", what); }
    auto h = m.native_handle(); bool other = false;
    unsigned n = 4 + c.rng.below(20);
    for(unsigned i = 0; i < n; ++i) {
        last_wait = 0; waited = false;
        switch(c.rng.below(binary ? 4 : 7)) {
        case 0: { if((depth > 0 && !recursive) || other) break; c.op("%s.lock", what); m.lock(); ++depth; VF_REQ(last_wait == portMAX_DELAY, "%s: lock() waited only %u ticks", what, last_wait); VF_EV("rtos_lock"); break; }
        case 1: { bool exp = !other && (recursive || depth == 0); bool r = m.try_lock(); c.op("%s.try_lock -> %d", what, r); VF_EQ(r, exp, what); VF_REQ(!waited && last_wait == 0, "%s: try_lock waits", what); if(r) ++depth; VF_EV("rtos_try_lock"); break; }
        case 2: { if(!depth) break; bool r = m.unlock(); c.op("%s.unlock", what); VF_REQ(r, "%s: unlock of an owned mutex failed", what); --depth; VF_EV("rtos_unlock"); break; }
        case 3: { if(depth || other) break; c.op("%s lock_guard", what); { estd::lock_guard<M> g(m); VF_EQ((unsigned)uxSemaphoreGetCount(h), 0u, "guard holds"); } VF_EQ((unsigned)uxSemaphoreGetCount(h), 1u, "guard released"); VF_EV("rtos_guard"); break; }
        case 4: { if(depth) break; if(other) { cur_task = 2; m.unlock(); cur_task = 1; other = false; } else { cur_task = 2; m.lock(); cur_task = 1; other = true; } VF_EV("rtos_other_task"); break; }
        case 5: { if(!other) break; bool r = m.unlock(); c.op("%s unlock by non owner", what); VF_REQ(!r, "%s: unlock by a task that does not own it succeeded", what); VF_EV("rtos_foreign_unlock"); break; }
        case 6: { if(!other) break; other_releases = 1; m.lock(); c.op("%s.lock waits for other", what); VF_REQ(waited, "%s: lock did not wait", what); other = false; ++depth; VF_EV("rtos_wait"); break; }
        }
        VF_EQ((unsigned)uxSemaphoreGetCount(h), depth || other ? 0u : 1u, what); KOK(what);
        if(!binary) VF_EQ((uintptr_t)xSemaphoreGetMutexHolder(h), (uintptr_t)(depth ? 1 : other ? 2 : 0), "holder");
    }
    while(depth) { m.unlock(); --depth; } if(other) { cur_task = 2; m.unlock(); cur_task = 1; }
}
template <class F> void lifetime(const char* what, F f) { auto& c = vf::cur(); long l = live; f(); KOK(what); VF_EQ(live, l, "kernel objects alive after destruction"); }

void mutexes(vf::Ctx& c) { c.nt(); reset_kernel(); bool binary = c.rng.chance(3, 10);
    switch(c.rng.below(6)) {
    case 0: lifetime("mutex<false>", [&] { fr::mutex<false> m(binary); VF_EQ(created, 1L, "objects created"); mutex_case(c, false, binary, m, "mutex<false>"); }); break;
    case 1: lifetime("mutex<true>", [&] { fr::mutex<true> m(binary); mutex_case(c, false, binary, m, "mutex<true>"); }); break;
    case 2: lifetime("timed_mutex<false>", [&] { fr::timed_mutex<false> m(binary); mutex_case(c, false, binary, m, "timed_mutex<false>"); }); break;
    case 3: lifetime("timed_mutex<true>", [&] { fr::timed_mutex<true> m(binary); mutex_case(c, false, binary, m, "timed_mutex<true>"); }); break;
    case 4: lifetime("recursive<false>", [&] { fr::recursive_mutex<false> m; mutex_case(c, true, false, m, "recursive<false>"); }); break;
    default: lifetime("recursive<true>", [&] { fr::recursive_mutex<true> m; mutex_case(c, true, false, m, "recursive<true>"); }); break;
    } }

template <class M> void timed(vf::Ctx& c, M& m, const char* what) {
    for(unsigned i = 0; i < 6; ++i) { bool held = c.rng.coin(), rel = c.rng.coin(); unsigned n = c.rng.below(5000); unsigned unit = c.rng.below(3); uint32_t ticks = unit == 0 ? n : unit == 1 ? n * 1000u : n * 60000u;
        if(held) { cur_task = 2; m.lock(); cur_task = 1; other_releases = rel && ticks; } waited = false; last_wait = 77;
        bool r = unit == 0 ? m.try_lock_for(estd::chrono::milliseconds(n)) : unit == 1 ? m.try_lock_for(estd::chrono::seconds(n)) : m.try_lock_for(estd::chrono::minutes(n));
        c.op("%s.try_lock_for(%u*%u) held=%d release=%d -> %d", what, n, unit, held, rel, r); KOK(what);
        VF_EQ(last_wait, ticks, "ticks waited"); VF_EQ(r, !held || (rel && ticks), what); VF_EV("rtos_try_lock_for");
        if(r) VF_REQ(m.unlock(), "%s: owned after try_lock_for", what); else { cur_task = 2; m.unlock(); cur_task = 1; } other_releases = 0; } }
void timed_mutexes(vf::Ctx& c) { c.nt(); reset_kernel(); if(c.rng.coin()) lifetime("timed<false>", [&] { fr::timed_mutex<false> m; timed(c, m, "timed_mutex<false>"); }); else lifetime("timed<true>", [&] { fr::timed_mutex<true> m; timed(c, m, "timed_mutex<true>"); }); }

template <class S> void sem_case(vf::Ctx& c, S& s, unsigned count, unsigned max, const char* what) {
    auto h = s.native_handle(); VF_EQ((unsigned)S::max(), max, "max()"); VF_EQ((unsigned)uxSemaphoreGetCount(h), count, "initial count"); unsigned n = 5 + c.rng.below(25);
    for(unsigned i = 0; i < n; ++i) { waited = false; last_wait = 77;
        switch(c.rng.below(4)) {
        case 0: c.op("%s.release", what); s.release(); if(count < max) ++count; VF_EV("rtos_release"); break;
        case 1: { bool r = s.try_acquire(); c.op("%s.try_acquire -> %d", what, r); VF_EQ(r, count > 0, what); VF_REQ(!waited && last_wait == 0, "try_acquire waits"); if(r) --count; VF_EV("rtos_try_acquire"); break; }
        case 2: { bool must = count == 0; other_releases = must; s.acquire(); c.op("%s.acquire", what); VF_EQ(waited, must, "waits exactly when none is available"); VF_EQ(last_wait, portMAX_DELAY, "acquire waits without limit"); if(!must) --count; VF_EV("rtos_acquire"); break; }
        case 3: { unsigned k = c.rng.below(100); bool sec = c.rng.coin(); bool r = sec ? s.try_acquire_for(estd::chrono::seconds(k)) : s.try_acquire_for(estd::chrono::milliseconds(k)); c.op("%s.try_acquire_for(%u) -> %d", what, k, r); VF_EQ(last_wait, sec ? k * 1000 : k, "ticks"); VF_EQ(r, count > 0, what); if(r) --count; VF_EV("rtos_try_acquire_for"); break; }
        }
        KOK(what); VF_EQ((unsigned)uxSemaphoreGetCount(h), count, what); } }
void semaphores(vf::Ctx& c) { c.nt(); reset_kernel(); unsigned d = c.rng.below(6);
    switch(c.rng.below(6)) {
    case 0: lifetime("counting<5,false>", [&] { fr::counting_semaphore<5, false> s(d); sem_case(c, s, d, 5, "counting<5,false>"); }); break;
    case 1: lifetime("counting<5,true>", [&] { fr::counting_semaphore<5, true> s(d); sem_case(c, s, d, 5, "counting<5,true>"); }); break;
    case 2: lifetime("binary<false>", [&] { fr::binary_semaphore<false> s; sem_case(c, s, 0, 1, "binary<false>"); }); break;
    case 3: lifetime("binary<true>", [&] { fr::binary_semaphore<true> s; sem_case(c, s, 0, 1, "binary<true>"); }); break;
    case 4: lifetime("counting<2,false>", [&] { fr::counting_semaphore<2, false> s; sem_case(c, s, 0, 2, "counting<2,false>"); }); break;
    default: lifetime("counting<100,true>", [&] { fr::counting_semaphore<100, true> s(d * 20); sem_case(c, s, d * 20, 100, "counting<100,true>"); }); break;
    } }

struct Msg { uint32_t a; uint8_t b[5]; bool operator==(const Msg& o) const { return a == o.a && !memcmp(b, o.b, 5); } };
template <class Q> void queue_case(vf::Ctx& c, Q& q, unsigned cap, const char* what) { std::deque<Msg> m; unsigned n = 5 + c.rng.below(30); typedef estd::chrono::milliseconds ms;
    for(unsigned i = 0; i < n; ++i) { waited = false; last_wait = 77; Msg v{}; v.a = (uint32_t)c.rng.next(); for(auto& x : v.b) x = (uint8_t)c.rng.next(); uint32_t t = c.rng.below(500);
        switch(c.rng.below(5)) {
        case 0: { bool r = q.send(v, estd::chrono::freertos_clock::duration(t)); c.op("%s.send(%u,%u ticks) -> %d", what, v.a, t, r); VF_EQ(r, m.size() < cap, what); VF_EQ(last_wait, t, "ticks"); if(r) m.push_back(v); VF_EV("rtos_send"); break; }
        case 1: { if(m.size() >= cap) break; VF_REQ(q.send(v), "send with room"); VF_EQ(last_wait, portMAX_DELAY, "send waits without limit"); m.push_back(v); c.op("%s.send(%u)", what, v.a); VF_EV("rtos_send"); break; }
        case 2: { Msg o{}; bool r = q.receive(&o, estd::chrono::freertos_clock::duration(t)); c.op("%s.receive(%u ticks) -> %d %u", what, t, r, o.a); VF_EQ(r, !m.empty(), what); VF_EQ(last_wait, t, "ticks"); if(r) { VF_REQ(o == m.front(), "%s: received another message than the oldest", what); m.pop_front(); VF_EV("rtos_receive"); } break; }
        case 3: { if(m.empty()) break; Msg o{}; VF_REQ(q.receive(&o), "receive with data"); VF_EQ(last_wait, portMAX_DELAY, "receive waits without limit"); VF_REQ(o == m.front(), "%s: received another message than the oldest", what); m.pop_front(); VF_EV("rtos_receive"); break; }
        case 4: { auto before = isr_calls; bool r = q.send_from_isr(v) == pdTRUE; c.op("%s.send_from_isr -> %d", what, r); VF_EQ(isr_calls, before + 1, "interrupt-safe kernel entry used"); VF_EQ(r, m.size() < cap, what); if(r) m.push_back(v); VF_EV("rtos_send_isr"); break; }
        }
        KOK(what); VF_EQ((unsigned)q.messages_waiting(), (unsigned)m.size(), "messages waiting"); } }
void queues(vf::Ctx& c) { c.nt(); reset_kernel(); unsigned cap = 1 + c.rng.below(7);
    switch(c.rng.below(3)) {
    case 0: lifetime("queue<false>", [&] { fr::queue<Msg, false> q(cap); queue_case(c, q, cap, "queue<false>"); }); break;
    case 1: lifetime("queue<true>", [&] { std::vector<Msg> st(cap); fr::queue<Msg, true> q(st.data(), cap); queue_case(c, q, cap, "queue<true>"); }); break;
    default: lifetime("layer1::queue", [&] { fr::layer1::queue<Msg, 4> q; queue_case(c, q, 4, "layer1::queue<4>"); }); break;
    } }

template <class G> void event_case(vf::Ctx& c, G& g, const char* what) { uint32_t m = 0; unsigned n = 5 + c.rng.below(20);
    for(unsigned i = 0; i < n; ++i) { uint32_t b = 1 + (uint32_t)c.rng.below(15); uint32_t t = c.rng.below(400); waited = false; last_wait = 77;
        switch(c.rng.below(6)) {
        case 0: { auto r = g.set_bits(b); m |= b; VF_EQ((uint32_t)r, m, "set_bits"); VF_EV("rtos_set_bits"); break; }
        case 1: { auto r = g.clear_bits(b); VF_EQ((uint32_t)r, m, "clear_bits returns the bits before"); m &= ~b; VF_EV("rtos_clear_bits"); break; }
        case 2: { bool clr = c.rng.coin(), allb = c.rng.coin(); auto r = g.wait_bits(b, clr, allb, estd::chrono::freertos_clock::duration(t)); c.op("%s.wait_bits(%x,clr=%d,all=%d)", what, b, clr, allb); VF_EQ((uint32_t)r, m, "wait_bits"); VF_EQ(last_wait, t, "ticks"); bool ok = allb ? (m & b) == b : (m & b) != 0; VF_EQ(waited, !ok && t > 0, "waits exactly when unsatisfied"); if(ok && clr) m &= ~b; VF_EV("rtos_wait_bits"); break; }
        case 3: { uint32_t w = 1 + (uint32_t)c.rng.below(15); auto r = g.sync(b, w, estd::chrono::freertos_clock::duration(t)); VF_EQ((uint32_t)r, m | b, "sync"); VF_EQ(last_wait, t, "ticks"); m |= b; if((m & w) == w) m &= ~w; VF_EV("rtos_sync"); break; }
        case 4: { BaseType_t woken = pdFALSE; auto before = isr_calls; g.set_bits_from_isr(b, &woken); m |= b; VF_EQ(isr_calls, before + 1, "interrupt-safe kernel entry used"); break; }
        case 5: { auto before = isr_calls; g.clear_bits_from_isr(b); m &= ~b; VF_EQ(isr_calls, before + 1, "interrupt-safe kernel entry used"); break; }
        }
        KOK(what); VF_EQ(((rtos_obj*)(EventGroupHandle_t)g)->bits, m, what); } }
void events(vf::Ctx& c) { c.nt(); reset_kernel(); if(c.rng.coin()) lifetime("event_group<false>", [&] { fr::event_group<false> g; VF_EQ(created, 1L, "created"); event_case(c, g, "event_group<false>"); }); else lifetime("event_group<true>", [&] { fr::event_group<true> g; VF_EQ(created, 1L, "created"); event_case(c, g, "event_group<true>"); }); }
}
VF_GROUP_W(rtos_mutexes, 20) { mutexes(c); }
VF_GROUP_W(rtos_timed_mutexes, 10) { timed_mutexes(c); }
VF_GROUP_W(rtos_semaphores, 20) { semaphores(c); }
VF_GROUP_W(rtos_queues, 20) { queues(c); }
VF_GROUP_W(rtos_events, 10) { events(c); }
