#include "vf.h"
#include <deque>
#include <memory>
#include <estd/internal/bip/buffer.h>

using namespace vf;

namespace {

// Uniform face over the three interfaces
struct CApi
{
    bipbuf_t* b;
    explicit CApi(unsigned n) : b(bipbuf_new(n)) {}
    ~CApi() { bipbuf_free(b); }
    int offer(const unsigned char* d, int n) { return bipbuf_offer(b, d, n); }
    const unsigned char* peek(int n) { return bipbuf_peek(b, n); }
    const unsigned char* poll(int n) { return bipbuf_poll(b, n); }
    unsigned used() { return bipbuf_used(b); }
    unsigned unused() { return bipbuf_unused(b); }
    bipbuf_t* native() { return b; }
    unsigned char* offer_begin() { return estd::internal::offer_begin(*b); }
    void offer_end(unsigned n) { estd::internal::offer_end(*b, n); }
};
template <unsigned N> struct L1
{
    Boxed<estd::layer1::bipbuf<N>> x;
    explicit L1(unsigned) : x() {}
    int offer(const unsigned char* d, int n) { return x->offer(d, n); }
    const unsigned char* peek(int n) { return x->peek(n); }
    const unsigned char* poll(int n) { return x->poll(n); }
    unsigned used() { return x->used(); }
    unsigned unused() { return x->unused(); }
    bipbuf_t* native() { return x->native(); }
    unsigned char* offer_begin() { return x->offer_begin(); }
    void offer_end(unsigned n) { x->offer_end(n); }
};
struct L3
{
    std::unique_ptr<unsigned char[]> mem;
    estd::layer3::bipbuf x;
    explicit L3(unsigned n) : mem(new unsigned char[sizeof(bipbuf_t) + n]), x((bipbuf_t*)mem.get(), (int)n) {}
    int offer(const unsigned char* d, int n) { return x.offer(d, n); }
    const unsigned char* peek(int n) { return x.peek(n); }
    const unsigned char* poll(int n) { return x.poll(n); }
    unsigned used() { return x.used(); }
    unsigned unused() { return x.unused(); }
    bipbuf_t* native() { return x.native(); }
    unsigned char* offer_begin() { return x.offer_begin(); }
    void offer_end(unsigned n) { x.offer_end(n); }
};

struct Item { const unsigned char* at; unsigned char v; };

template <class B>
void history(Ctx& c, unsigned cap)
{
    B b(cap);
    std::deque<Item> model;
    unsigned char next = (unsigned char)c.rng.next();
    unsigned steps = 5 + c.rng.below(120);
    unsigned bias = c.rng.below(3);
    bool polled = false;
    c.op("cap=%u", cap);

    auto invariants = [&]()
    {
        unsigned used = b.used(), unused = b.unused();
        VF_EQ(used, model.size(), "used");
        VF_REQ(used + unused <= cap, "used %u + unused %u > capacity %u", used, unused, cap);
        VF_EQ((bool)bipbuf_is_empty(b.native()), model.empty(), "is_empty");
        VF_EQ(bipbuf_size(b.native()), cap, "size");
        if(model.empty()) { VF_EQ(unused, cap, "unused of an empty buffer"); return; }
        // occupied addresses tell where the free regions are
        const unsigned char* base = b.native()->data;
        size_t front = model.front().at - base, last = model.back().at - base;
        if(last >= front)
        {
            size_t tail = cap - (last + 1);
            size_t want = tail > front ? tail : front;
            VF_EQ(unused, want, "unused (contiguous layout)");
        }
        else
        {
            VF_EV("wrapped layout");
            VF_EQ(unused, front - (last + 1), "unused (wrapped layout)");
        }
        c.state(mix(cap * 1000003ull + front * 1009 + last));
    };
    auto run = [&]()
    {
        size_t n = 0;
        while(n < model.size() && model[n].at == model[0].at + n) ++n;
        return n;
    };
    auto verify = [&](const unsigned char* p, size_t n, const char* what)
    {
        for(size_t i = 0; i < n; ++i)
        {
            VF_REQ(p[i] == model[i].v, "%s: byte %zu is %02x, expected %02x", what, i, p[i], model[i].v);
        }
    };

    for(unsigned s = 0; s < steps; ++s)
    {
        unsigned k = c.rng.below(10);
        if(k < 3 + bias)
        {
            unsigned n = c.rng.chance(1, 3) ? b.unused() + c.rng.below(2) : c.rng.below(cap + 2);
            std::unique_ptr<unsigned char[]> src(new unsigned char[n ? n : 1]);
            for(unsigned i = 0; i < n; ++i) src[i] = next + i;
            unsigned avail = b.unused();
            const unsigned char* at = b.offer_begin();
            int r = b.offer(src.get(), n);
            c.op("offer %u->%d", n, r);
            if(n <= avail)
            {
                VF_REQ(r == (int)n, "offer of %u bytes with %u unused returned %d", n, avail, r);
                for(unsigned i = 0; i < n; ++i) model.push_back(Item{at + i, (unsigned char)(next + i)});
                next += n;
                VF_EV("offer accepted");
            }
            else
            {
                VF_REQ(r == 0, "offer of %u bytes with %u unused returned %d", n, avail, r);
                VF_EV("offer refused");
            }
        }
        else if(k == 6)
        {
            unsigned n = c.rng.below(b.unused() + 1);
            unsigned char* at = b.offer_begin();
            c.op("offer_begin/end %u", n);
            for(unsigned i = 0; i < n; ++i) { at[i] = next; model.push_back(Item{at + i, next}); ++next; }
            b.offer_end(n);
            VF_EV("zero copy offer");
        }
        else if(k == 7)
        {
            size_t r = run();
            unsigned n = c.rng.below(r + 2);
            const unsigned char* p = b.peek(n);
            c.op("peek %u", n);
            if(model.empty() || n > r) VF_REQ(p == nullptr, "peek(%u) with %zu contiguous bytes yields data", n, r);
            else
            {
                VF_REQ(p == model[0].at, "peek(%u) with %zu contiguous bytes: wrong address or refused", n, r);
                verify(p, n, "peek");
                VF_EV("peek");
            }
        }
        else
        {
            size_t r = run();
            unsigned n = c.rng.chance(1, 4) ? r : c.rng.below(r + 3);
            const unsigned char* p = b.poll(n);
            c.op("poll %u", n);
            if(model.empty() || n > r)
            {
                VF_REQ(p == nullptr, "poll(%u) with %zu contiguous bytes yields data", n, r);
                VF_EV("poll refused");
            }
            else
            {
                VF_REQ(p == model[0].at, "poll(%u) with %zu contiguous bytes: wrong address or refused", n, r);
                verify(p, n, "poll");
                bool swap = n == r && model.size() > r;
                model.erase(model.begin(), model.begin() + n);
                if(swap) VF_EV("region swap");
                if(n) polled = true;
                VF_EV("poll"); VF_EVN("bytes polled", n);
            }
        }
        invariants();
    }
    // drain: every accepted byte comes out in order
    unsigned guard = 0;
    while(!model.empty() && guard++ < 4)
    {
        size_t r = run();
        const unsigned char* p = b.poll(r);
        VF_REQ(p != nullptr, "drain: poll(%zu) refused with %zu bytes used", r, model.size());
        verify(p, r, "drain");
        model.erase(model.begin(), model.begin() + r);
        invariants();
    }
    VF_REQ(model.empty(), "bytes left after draining");
    if(polled) c.nt();
}

}

VF_GROUP(c_api) { history<CApi>(c, 1 + (c.rng.coin() ? c.rng.below(12) : c.rng.below(300))); }
VF_GROUP_W(layer3, 60) { history<L3>(c, 1 + (c.rng.coin() ? c.rng.below(12) : c.rng.below(300))); }
VF_GROUP_W(layer1, 60)
{
    switch(c.rng.below(5))
    {
        case 0: history<L1<1>>(c, 1); break;
        case 1: history<L1<2>>(c, 2); break;
        case 2: history<L1<7>>(c, 7); break;
        case 3: history<L1<16>>(c, 16); break;
        default: history<L1<128>>(c, 128); break;
    }
}

// An inline bip buffer must be usable wherever the compiler may place it
VF_PROBE(layer1_alignment)
{
    struct S { char pad; estd::layer1::bipbuf<8> b; };
    Boxed<S> s;
    unsigned char d[] = {1, 2, 3};
    VF_REQ(s->b.offer(d, 3) == 3, "offer refused");
    VF_REQ(s->b.used() == 3, "used");
}
// capacities past what a byte, and past what 16 bits, count
VF_GROUP_W(large, 2) { history<CApi>(c, 257 + (c.rng.coin() ? c.rng.below(4000) : 65300 + c.rng.below(9000))); }
VF_GROUP_W(large3, 2) { history<L3>(c, 257 + (c.rng.coin() ? c.rng.below(4000) : 65300 + c.rng.below(9000))); }
VF_GROUP_W(large1, 4) { switch(c.rng.below(3)) { case 0: history<L1<256>>(c, 256); break; case 1: history<L1<1500>>(c, 1500); break; default: history<L1<33000>>(c, 33000); } }
