#include "../C01/d_strings.h"
#include "over.h"
namespace {
template <class P> void run(Ctx& c)
{
    P p(c); P::name(c); auto& s = p.s(); std::string m; const size_t cap = p.maxlen;
    for(unsigned step = 10 + c.rng.below(20); step--;)
    {
        // any legal length first
        size_t n0 = c.rng.chance(1, 3) ? cap : c.rng.chance(1, 2) ? cap - c.rng.below(cap < 6 ? cap + 1 : 6) : c.rng.below(cap + 1);
        m.clear(); for(size_t i = 0; i < n0; ++i) m += (char)('a' + c.rng.below(26));
        { Raw<char> z(m.size() + 1); memcpy(z.data(), m.c_str(), z.n); bool ok = over::completes([&] { s.clear(); s.append((const char*)z.data(), m.size()); }); c.op("set %zu", n0); VF_REQ(ok, "filling %zu of %zu was refused", n0, cap); }
        VF_REQ((size_t)s.size() == n0 && !memcmp(s.data(), m.data(), n0), "content after filling %zu of %zu", n0, cap);
        // then something that may or may not fit
        size_t room = cap - n0, k;
        switch(c.rng.below(6)) { case 0: k = room; break; case 1: case 2: k = room + 1 + c.rng.below(3); break; case 3: k = 256 - n0 % 256 + c.rng.below(4); break; case 4: k = c.rng.below(300); break; default: k = room + c.rng.below(700); }
        std::string t; for(size_t i = 0; i < k; ++i) t += (char)('A' + c.rng.below(26));
        Raw<char> z(k + 1); memcpy(z.data(), t.c_str(), k + 1); const char* q = z.data();
        size_t at = c.rng.below(n0 + 1); unsigned op = c.rng.below(15); std::string want = m; bool done = true, known = true; bool refused = false;
        const char* names[] = { "append(p,n)", "append(cstr)", "+= cstr", "+= char", "push_back", "append(n,ch)", "append(other)", "append(string_view)", "insert(at,p,n)", "insert(at,cstr)", "insert(it,ch)", "insert(it,range)", "= cstr", "= other", "resize" };
        c.op("%s %zu at %zu", names[op], k, at);
        static estd::layer1::string<1500, false> o; o.clear(); o.append(q, k);
        switch(op)
        {
            case 0: want += t; done = over::completes([&] { s.append(q, k); }); break;
            case 1: want += t; done = over::completes([&] { s.append(q); }); break;
            case 2: want += t; done = over::completes([&] { s += q; }); break;
            case 3: want += 'X'; done = over::completes([&] { s += 'X'; }); break;
            case 4: want += 'X'; done = over::completes([&] { s.push_back('X'); }); break;
            case 5: want.append(k, 'X'); done = over::completes([&] { s.append(k, 'X'); }); break;
            case 6: want += t; done = over::completes([&] { s.append(o); }); break;
            case 7: want += t; done = over::completes([&] { s.append(std::string_view(q, k)); }); break;
            case 8: want.insert(at, t); done = over::completes([&] { s.insert(at, q, k); }); break;
            case 9: want.insert(at, t); done = over::completes([&] { s.insert(at, q); }); break;
            case 10: want.insert(want.begin() + at, 'X'); done = over::completes([&] { s.insert(s.begin() + at, 'X'); }); break;
            case 11: want.insert(at, t); done = over::completes([&] { s.insert(s.begin() + at, q, q + k); }); break;
            case 12: if constexpr(std::is_assignable<typename P::S&, const char*>::value) { want = t; done = over::completes([&] { s = q; }); break; } else { want = t; done = over::completes([&] { s.assign(q, q + k); }); break; }
            case 13: want = t; done = over::completes([&] { s = o; }); break;
            default: want.resize(k); known = k <= n0; done = over::completes([&] { refused = !s.resize(k); }); break;
        }
        bool fits = want.size() <= cap;
        size_t now = s.size();
        VF_REQ(now <= cap, "%s: size %zu in storage for %zu", names[op], now, cap);
        if(fits)
        {
            VF_REQ(done && !refused, "%s of %zu ended the program although it fits (%zu of %zu)", names[op], k, want.size(), cap);
            if(known) VF_REQ(now == want.size() && !memcmp(s.data(), want.data(), now), "%s: content", names[op]);
            else if(!P::nt) VF_REQ(now == k, "resize");
            VF_EV(want.size() == cap ? "exactly full" : "fits");
        }
        else
        {
            if(op == 14) VF_REQ(!done || refused || now == k, "resize(%zu) claims to have happened, size is %zu", k, now);
            // going on as if nothing happened would lose text silently
            VF_REQ(!done || refused, "%s of %zu, which needs %zu of %zu, returns as if it fitted; size is %zu", names[op], k, want.size(), cap, now);
            VF_EV(names[op]); VF_EV(done ? "over capacity: refused" : "over capacity: stopped"); c.nt();
        }
        c.state(now * 64 + op); c.mark(n0 * 4096 + k * 16 + op);
    }
}
VF_REG("layer1::string<2>", 20, run<L1<2, true>>);
VF_REG("layer1::string<16>", 60, run<L1<16, true>>);
VF_REG("layer1::string<16,false>", 60, run<L1<16, false>>);
VF_REG("layer1::string<255>", 60, run<L1<255, true>>);
VF_REG("layer1::string<255,false>", 60, run<L1<255, false>>);
VF_REG("layer1::string<256>", 60, run<L1<256, true>>);
VF_REG("layer1::string<256,false>", 60, run<L1<256, false>>);
VF_REG("layer1::string<300>", 60, run<L1<300, true>>);
VF_REG("layer2::string<16>", 60, run<L2<16, true>>);
VF_REG("layer2::string<16,false>", 60, run<L2<16, false>>);
VF_REG("layer2::string<255>", 60, run<L2<255, true>>);
VF_REG("layer2::string<256,false>", 60, run<L2<256, false>>);
VF_REG("layer3::string", 90, run<L3<true>>);
VF_REG("layer3::string,false", 90, run<L3<false>>);
}
