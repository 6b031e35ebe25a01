// Allocation monitor: inside a QUIET section every malloc/new/free of this thread is counted by the sanitizer's
// allocation hooks; statically sized objects must leave the counters at zero.
#pragma once
#include "vf.h"
#include <type_traits>
using namespace vf;
namespace quiet {
// volatile: the compiler may assume that allocation functions touch no other memory
extern volatile bool armed; extern volatile unsigned allocs, frees; extern volatile size_t first;
inline void on() { allocs = 0; frees = 0; asm volatile("" ::: "memory"); armed = true; asm volatile("" ::: "memory"); }
inline void off() { asm volatile("" ::: "memory"); armed = false; asm volatile("" ::: "memory"); }
inline void check(Ctx& c, const char* what)
{
    if(allocs || frees) c.fail("heap", 0, "%s used the heap: %u allocations (first of %zu bytes), %u releases", what, (unsigned)allocs, (size_t)first, (unsigned)frees);
    VF_EV("operations watched");
}
}
#define QUIET(what, ...) do { quiet::on(); __VA_ARGS__; quiet::off(); quiet::check(c, what); } while(0)
// digest without allocation
struct H { uint64_t v = 1; template <class T> void operator()(const T& x) { v = mix(v ^ (uint64_t)x); } };

// Copies and assignments of an object of type T are independent: A is built by edit(seed1); B is made from A in each
// way; then A is edited, destroyed and overwritten; B must hold what a fresh object with the same history holds.
template <class T, class Edit, class Dig> void independent(Ctx& c, const char* what, Edit edit, Dig dig)
{
    uint64_t s1 = c.rng.next(), s2 = c.rng.next(), s3 = c.rng.next(); c.op("copies of %s", what); c.mark(s1);
    struct Mem { void* p; Mem() : p(::operator new(sizeof(T))) { memset(p, 0xA5, sizeof(T)); } ~Mem() { ::operator delete(p); } T* get() { return (T*)p; } };
    uint64_t d1, d12, d13, d2, d23;      // reference digests: histories s1, s1+s2, s1+s3, s2, s2+s3
    { Mem m; Rng r(s1); quiet::on(); new(m.p) T(); edit(*m.get(), r); d1 = dig(*m.get()); { Rng q(s2); edit(*m.get(), q); } d12 = dig(*m.get()); m.get()->~T(); quiet::off(); quiet::check(c, what); }
    { Mem m; Rng r(s1); new(m.p) T(); edit(*m.get(), r); { Rng q(s3); edit(*m.get(), q); } d13 = dig(*m.get()); m.get()->~T(); }
    { Mem m; Rng r(s2); new(m.p) T(); edit(*m.get(), r); d2 = dig(*m.get()); { Rng q(s3); edit(*m.get(), q); } d23 = dig(*m.get()); m.get()->~T(); }
    for(int how = 0; how < 4; ++how)
    {
        if(how == 0 ? !std::is_copy_constructible<T>::value : how == 1 ? !std::is_move_constructible<T>::value : how == 2 ? !std::is_copy_assignable<T>::value || !std::is_copy_constructible<T>::value : !std::is_move_assignable<T>::value) continue;     // copying may be forbidden
        Mem b; { Mem a; Rng r(s1); 
            quiet::on(); new(a.p) T(); edit(*a.get(), r);
            switch(how)
            {
                case 0: if constexpr(std::is_copy_constructible<T>::value) new(b.p) T((const T&)*a.get()); break;
                case 1: if constexpr(std::is_move_constructible<T>::value) new(b.p) T(std::move(*a.get())); break;
                case 2: { new(b.p) T(); Rng q(s3); edit(*b.get(), q); if constexpr(std::is_copy_assignable<T>::value) *b.get() = (const T&)*a.get(); break; }
                case 3: { new(b.p) T(); Rng q(s3); edit(*b.get(), q); if constexpr(std::is_move_assignable<T>::value) *b.get() = std::move(*a.get()); break; }
            }
            quiet::off(); quiet::check(c, what);
            static const char* const way[] = { "copy", "moved object", "assigned object", "move-assigned object" };
            VF_REQ(dig(*b.get()) == d1, "%s: %s differs from its source", what, way[how]);
            if(!(how & 1))
            {
                VF_REQ(dig(*a.get()) == d1, "%s: source changed by making a %s", what, way[how]);
                { Rng q(s2); quiet::on(); edit(*a.get(), q); quiet::off(); quiet::check(c, what); }
                VF_REQ(dig(*b.get()) == d1, "%s: %s changed when its source was edited", what, way[how]); VF_REQ(dig(*a.get()) == d12, "%s: source of a %s misbehaves", what, way[how]);
                { Rng q(s3); quiet::on(); edit(*b.get(), q); quiet::off(); quiet::check(c, what); }
                VF_REQ(dig(*a.get()) == d12, "%s: source changed when its %s was edited", what, way[how]); VF_REQ(dig(*b.get()) == d13, "%s: edited %s differs from an object with the same history", what, way[how]);
            }
            quiet::on(); a.get()->~T(); quiet::off(); quiet::check(c, what); memset(a.p, 0xEE, sizeof(T));
        }       // the source's storage is gone
        VF_REQ(dig(*b.get()) == ((how & 1) ? d1 : d13), "%s: object depends on the storage of its source", what);
        if(how & 1) { Rng q(s2); quiet::on(); edit(*b.get(), q); quiet::off(); quiet::check(c, what); VF_REQ(dig(*b.get()) == d12, "%s: edited relocated object differs from an object with the same history", what); }
        b.get()->~T(); VF_EV("copies made");
    }
    (void)d2; (void)d23; VF_EV(what); c.state(d1); c.nt();
}
