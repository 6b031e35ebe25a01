#include "vf.h"
#include <estd/queue.h>
#include <estd/stack.h>
#include <deque>
#include <vector>
#include <type_traits>
using namespace vf;
namespace {
struct P3 { int a, b, c; P3() = default; P3(int v) : a(v), b(~v), c(v * 3) {} };
int num(int v) { return v; }
int num(unsigned char v) { return v; }
int num(const P3& p) { return p.b == ~p.a && p.c == p.a * 3 ? p.a : -12345; }
int num(const Tracked& t) { return t.get(); }
template <class T> int val(Ctx& c, int& fresh) { return sizeof(T) == 1 ? (int)c.rng.below(250) : c.rng.coin() ? (int)c.rng.below(1000) : 10000 + fresh++; }

template <class T, size_t N> void deque_hist(Ctx& c)
{
    constexpr bool tr = std::is_same<T, Tracked>::value;
    Ledger::reset();
    {
        typedef estd::layer1::deque<T, N> D;
        c.op("deque<%zu bytes,%zu>", sizeof(T), N);
        D* d = new D; std::deque<int> m; int fresh = 0; size_t pushed_back = 0, pushed_front = 0; bool nt = false;
        struct Del { D*& d; ~Del() { delete d; } } del{d};
        unsigned steps = 10 + c.rng.below(111), bias = c.rng.below(3);      // bias: 0 balanced, 1 fill, 2 drain
        for(unsigned s = 0; s < steps; ++s)
        {
            if(c.rng.chance(1, 20)) bias = c.rng.below(3);
            if(N > 60 && c.rng.chance(1, 6))        // bulk, so that large rings fill, empty and wrap
            {
                size_t k = c.rng.below(N + 1); c.op("bulk to %zu", k); bool b = c.rng.coin();
                while(m.size() < k) { int x = val<T>(c, fresh); if(b) { d->push_back(T(x)); m.push_back(x); ++pushed_back; } else { const T e(x); d->push_front(e); m.push_front(x); ++pushed_front; } }
                b = c.rng.coin(); while(m.size() > k) { VF_EQ(num(b ? d->front() : d->back()), b ? m.front() : m.back(), "next out of a bulk"); if(b) { d->pop_front(); m.pop_front(); } else { d->pop_back(); m.pop_back(); } }
                if(m.size() > 256) VF_EV("more than 256 elements");
            }
            unsigned op = c.rng.below(12); bool add = bias == 0 ? c.rng.coin() : bias == 1 ? c.rng.chance(4, 5) : c.rng.chance(1, 5);
            if(op == 11)
            {
                if(c.rng.chance(1, 6)) { c.op("move construct"); D* n = new D(std::move(*d)); delete d; d = n; VF_EV("move"); }
                else if(m.size()) { size_t k = c.rng.below(m.size()); auto it = d->begin(); for(size_t i = 0; i < k; ++i) ++it; int x = val<T>(c, fresh); c.op("*(begin+%zu)=%d", k, x); *it = T(x); m[k] = x; }
            }
            else if(add && m.size() < N)
            {
                int x = val<T>(c, fresh);
                switch(op % 6)
                {
                    case 0: { c.op("push_back(%d)", x); const T e(x); VF_REQ(d->push_back(e), "push_back result"); m.push_back(x); ++pushed_back; break; }
                    case 1: c.op("push_back(move %d)", x); VF_REQ(d->push_back(T(x)), "push_back result"); m.push_back(x); ++pushed_back; break;
                    case 2: { c.op("emplace_back(%d)", x); T& r = d->emplace_back(x); VF_EQ(num(r), x, "emplace_back result"); m.push_back(x); ++pushed_back; break; }
                    case 3: { c.op("emplace_front(%d)", x); T& r = d->emplace_front(x); VF_EQ(num(r), x, "emplace_front result"); m.push_front(x); ++pushed_front; VF_EV("front edit"); break; }
                    default: { c.op("push_front(%d)", x); const T e(x); VF_REQ(d->push_front(e), "push_front result"); m.push_front(x); ++pushed_front; VF_EV("front edit"); break; }
                }
            }
            else if(!add && m.size())
            {
                if(op & 1) { c.op("pop_back"); VF_REQ(d->pop_back(), "pop_back result"); m.pop_back(); }
                else { c.op("pop_front"); VF_REQ(d->pop_front(), "pop_front result"); m.pop_front(); }
                if(m.empty()) VF_EV("emptied");
            }
            if(tr) VF_EV("tracked edit");
            const D& cd = *d;
            VF_EQ((size_t)cd.size(), m.size(), "size"); VF_EQ(cd.empty(), m.empty(), "empty"); VF_EQ((size_t)cd.max_size(), N, "max_size");
            if(m.size()) { VF_EQ(num(d->front()), m.front(), "front"); VF_EQ(num(d->back()), m.back(), "back"); VF_EQ(num(cd.front()), m.front(), "const front"); VF_EQ(num(cd.back()), m.back(), "const back"); }
            size_t i = 0;
            for(auto it = d->begin(); it != d->end(); ++it, ++i) { VF_REQ(i < m.size(), "iteration runs past the end"); VF_REQ(num(*it) == m[i], "iteration: element %zu is %d, expected %d", i, num(*it), m[i]); }
            VF_EQ(i, m.size(), "elements iterated");
            if(c.rng.chance(1, 4)) { auto it = d->end(); for(size_t k = m.size(); k-- > 0;) { --it; VF_REQ(num(*it) == m[k], "backward iteration: element %zu is %d, expected %d", k, num(*it), m[k]); }
                VF_REQ(it == d->begin(), "backward iteration ends at begin");
                if(m.size()) { auto a = d->begin(); auto b = a++; VF_REQ(num(*b) == m[0], "post-increment"); (void)a; } }
            if(tr) VF_LEDGER(m.size());
            if(m.size() == N) { VF_EV("full"); VF_EV("iterated full"); nt = true; }
            if(pushed_back > N || pushed_front > N) { VF_EV("wrap"); nt = true; }
            uint64_t h = m.size(); for(int x : m) h = mix(h ^ (uint64_t)x);
            c.mark(h); c.state(mix(h ^ (pushed_back % N) * 64 ^ pushed_front % N));
        }
        if(nt) c.nt();
    }
    c.op("drop"); if(tr) VF_LEDGER(0);
}
template <class T, size_t N> void queue_hist(Ctx& c)
{
    constexpr bool tr = std::is_same<T, Tracked>::value;
    Ledger::reset();
    {
        typedef estd::layer1::queue<T, N> Q;
        c.op("queue<%zu bytes,%zu>", sizeof(T), N);
        Q* q = new Q; std::deque<int> m; int fresh = 0; size_t total = 0; bool nt = false;
        struct Del { Q*& q; ~Del() { delete q; } } del{q};
        unsigned steps = 10 + c.rng.below(91);
        for(unsigned s = 0; s < steps; ++s)
        {
            if(N > 60 && c.rng.chance(1, 6))
            {
                size_t k = c.rng.below(N + 1); c.op("bulk to %zu", k);
                while(m.size() < k) { int x = val<T>(c, fresh); ++total; q->push(T(x)); m.push_back(x); }
                while(m.size() > k) { VF_EQ(num(q->front()), m.front(), "next out of a bulk"); q->pop(); m.pop_front(); }
                if(m.size() > 256) VF_EV("more than 256 elements");
            }
            else if(c.rng.chance(1, 40)) { c.op("move construct"); Q* n = new Q(std::move(*q)); delete q; q = n; VF_EV("move"); }
            else if(m.size() < N && (m.empty() || c.rng.chance(3, 5)))
            {
                int x = val<T>(c, fresh); ++total; c.op("push(%d)", x);
                switch(c.rng.below(3)) { case 0: { const T e(x); VF_REQ(q->push(e), "push result"); break; } case 1: VF_REQ(q->push(T(x)), "push result"); break; default: VF_EQ(num(q->emplace(x)), x, "emplace result"); }
                m.push_back(x);
            }
            else { c.op("pop"); VF_EQ(num(q->front()), m.front(), "next out"); VF_REQ(q->pop(), "pop result"); m.pop_front(); VF_EV("queue pop"); }
            const Q& cq = *q;
            VF_EQ((size_t)cq.size(), m.size(), "size"); VF_EQ(cq.empty(), m.empty(), "empty");
            if(m.size()) { VF_EQ(num(q->front()), m.front(), "front"); VF_EQ(num(q->back()), m.back(), "back"); VF_EQ(num(cq.front()), m.front(), "front"); VF_EQ(num(cq.back()), m.back(), "back"); }
            if(tr) VF_LEDGER(m.size());
            if(m.size() == N) { VF_EV("full"); nt = true; }
            if(total > N) { VF_EV("wrap"); nt = true; }
            uint64_t h = m.size(); for(int x : m) h = mix(h ^ (uint64_t)x);
            c.mark(h); c.state(mix(h ^ total % N));
        }
        if(nt) c.nt();
    }
    c.op("drop"); if(tr) VF_LEDGER(0);
}
template <class T, size_t N> void stack_hist(Ctx& c)
{
    constexpr bool tr = std::is_same<T, Tracked>::value;
    Ledger::reset();
    {
        typedef estd::layer1::stack<T, N> S;
        c.op("stack<%zu bytes,%zu>", sizeof(T), N);
        Boxed<S> q; std::vector<int> m; int fresh = 0;
        unsigned steps = 10 + c.rng.below(91);
        for(unsigned s = 0; s < steps; ++s)
        {
            if(N > 60 && c.rng.chance(1, 6))
            {
                size_t k = c.rng.below(N + 1); c.op("bulk to %zu", k);
                while(m.size() < k) { int x = val<T>(c, fresh); q->push(T(x)); m.push_back(x); }
                while(m.size() > k) { VF_EQ(num((const T&)q->top()), m.back(), "next out of a bulk"); q->pop(); m.pop_back(); }
                if(m.size() > 256) VF_EV("more than 256 elements");
            }
            else if(m.size() < N && (m.empty() || c.rng.chance(3, 5)))
            {
                int x = val<T>(c, fresh); c.op("push(%d)", x);
                if(c.rng.coin()) { const T e(x); q->push(e); } else q->push(T(x));
                m.push_back(x);
            }
            else { c.op("pop"); VF_EQ(num((const T&)q->top()), m.back(), "next out"); q->pop(); m.pop_back(); VF_EV("stack pop"); }
            VF_EQ((size_t)q->size(), m.size(), "size"); VF_EQ((bool)q->empty(), m.empty(), "empty");
            if(m.size()) { VF_EQ(num((const T&)q->top()), m.back(), "top"); const S& cq = *q; const auto a = cq.top(); VF_EQ(num((const T&)a), m.back(), "top of a const stack"); VF_EQ(num((const T&)cq.top()), m.back(), "top of a const stack"); }
            size_t i = 0;
            for(auto it = q->begin(); it != q->end(); ++it, ++i) { VF_REQ(i < m.size(), "iteration past the end"); VF_EQ(num((const T&)*it), m[i], "iteration from the bottom"); }
            VF_EQ(i, m.size(), "elements iterated");
            if(tr) VF_LEDGER(m.size());
            if(m.size() == N) { VF_EV("full"); c.nt(); }
            uint64_t h = m.size(); for(int x : m) h = mix(h ^ (uint64_t)x);
            c.mark(h); c.state(h);
        }
    }
    c.op("drop"); if(tr) VF_LEDGER(0);
}
}
VF_REG("deque<int,1>", 30, deque_hist<int, 1>);
VF_REG("deque<int,2>", 40, deque_hist<int, 2>);
VF_REG("deque<int,3>", 60, deque_hist<int, 3>);
VF_REG("deque<u8,8>", 60, deque_hist<unsigned char, 8>);
VF_REG("deque<p3,7>", 60, deque_hist<P3, 7>);
VF_REG("deque<int,40>", 40, deque_hist<int, 40>);
VF_REG("deque<tracked,1>", 30, deque_hist<Tracked, 1>);
VF_REG("deque<tracked,5>", 120, deque_hist<Tracked, 5>);
VF_REG("deque<tracked,16>", 60, deque_hist<Tracked, 16>);
VF_REG("queue<int,4>", 80, queue_hist<int, 4>);
VF_REG("queue<u8,30>", 40, queue_hist<unsigned char, 30>);
VF_REG("queue<p3,3>", 40, queue_hist<P3, 3>);
VF_REG("queue<tracked,6>", 100, queue_hist<Tracked, 6>);
VF_REG("stack<int,10>", 60, stack_hist<int, 10>);
VF_REG("stack<p3,5>", 40, stack_hist<P3, 5>);
VF_REG("stack<tracked,12>", 80, stack_hist<Tracked, 12>);
VF_REG("deque<int,255>", 10, deque_hist<int, 255>);
VF_REG("deque<tracked,256>", 10, deque_hist<Tracked, 256>);
VF_REG("deque<p3,300>", 10, deque_hist<P3, 300>);
VF_REG("queue<u8,257>", 10, queue_hist<unsigned char, 257>);
VF_REG("queue<p3,600>", 10, queue_hist<P3, 600>);
VF_REG("stack<int,300>", 10, stack_hist<int, 300>);
VF_REG("stack<tracked,260>", 10, stack_hist<Tracked, 260>);
