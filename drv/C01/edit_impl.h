#pragma once
#ifdef VF_NARROW // std::string_view has other traits
#define VF_SV estd::string_view
#else
#define VF_SV std::string_view
#endif
#include "d_strings.h"
#include <estd/string_view.h>

namespace {

std::string gen(Ctx& c, size_t maxlen, bool nt)
{
    size_t n = c.rng.chance(1, 6) ? maxlen : c.rng.below((maxlen < 12 ? maxlen : 12) + 1);
    std::string r;
    bool wide = c.rng.chance(1, 4);
    for(size_t i = 0; i < n; ++i)
    {
        int ch = wide ? (int)c.rng.below(256) : 'a' + (int)c.rng.below(6);
        if(nt && ch == 0) ch = 1;
        r += (char)ch;
    }
    return r;
}

// length-checked clone of text in its own exactly sized, NUL terminated block
struct CStr
{
    Raw<char> r;
    explicit CStr(const std::string& s) : r(s.size() + 1) { memcpy(r.data(), s.c_str(), s.size() + 1); }
    operator const char*() { return r.data(); }
};
struct Bytes
{
    Raw<char> r;
    explicit Bytes(const std::string& s) : r(s.size()) { memcpy(r.data(), s.data(), s.size()); }
    const char* p() { return r.data(); }
};

template <class P> void verify(Ctx& c, P& p, const std::string& m)
{
    auto& s = p.s();
    const auto& cs = s;
    VF_EQ((size_t)cs.size(), m.size(), "size()");
    VF_EQ((size_t)cs.length(), m.size(), "length()");
    VF_EQ((bool)cs.empty(), m.empty(), "empty()");
    if(P::dynamic && m.empty() && cs.capacity() == 0) return;   // nothing allocated yet
    const char* d = cs.clock();
    if(p.storage()) VF_REQ(d == p.storage(), "data moved out of its own storage");
    VF_REQ(memcmp(d, m.data(), m.size()) == 0, "content is %s, expected %s", show(d, m.size()).c_str(), show(m).c_str());
    if(P::nt) VF_REQ(d[m.size()] == 0, "terminator missing at %zu", m.size());
    cs.cunlock();
    if(p.storage()) VF_EQ((size_t)cs.max_size() >= p.maxlen, true, "max_size() covers usable room");
    c.state(hash_bytes(m.data(), m.size()) ^ mix(p.maxlen));
}

template <class P> void walk(Ctx& c, P& p, const std::string& m)
{
    auto& s = p.s();
    size_t i = 0;
    for(auto it = s.begin(); it != s.end(); ++it, ++i)
    {
        VF_REQ(i < m.size(), "iteration runs past the end");
        VF_REQ((char)*it == m[i], "iteration: element %zu is %02x, expected %02x", i, (unsigned char)(char)*it, (unsigned char)m[i]);
    }
    VF_EQ(i, m.size(), "iterated elements");
    if(m.size())
    {
        size_t k = c.rng.below(m.size());
        VF_REQ((char)s[k] == m[k], "operator[]");
        VF_REQ((char)s.at(k) == m[k], "at()");
        VF_REQ((char)s.front() == m.front(), "front()");
        VF_REQ((char)s.back() == m.back(), "back()");
    }
    // copy out
    size_t pos = c.rng.below(m.size() + 1), n = c.rng.below(m.size() + 3);
    using size_type = typename std::decay_t<decltype(s)>::size_type;
    if(n > std::numeric_limits<size_type>::max()) n = std::numeric_limits<size_type>::max();
    size_t want = n < m.size() - pos ? n : m.size() - pos;
    Raw<char> out(want);
    size_t got = s.copy(out.data(), n, pos);
    VF_EQ(got, want, "copy() count");
    VF_REQ(memcmp(out.data(), m.data() + pos, want) == 0, "copy() content");
    VF_EV("walk");
}

// a source string of another layer holding exactly t
template <class F> void with_other(Ctx& c, const std::string& t, F f)
{
    bool nul = t.find('\0') != std::string::npos;
    if(t.size() > 690)
    {
        if(nul || c.rng.coin()) { Boxed<estd::layer1::string<70200, false>> o; o->append(t.data(), t.size()); f(*o); }
        else if(c.rng.coin()) { Boxed<estd::layer1::string<70201>> o(t.c_str()); f(*o); }
        else { CStr b(t); estd::layer2::const_string o((const char*)b); f(o); }
        VF_EV("cross-layer copy of long text"); return;
    }
    switch(c.rng.below(nul ? 2 : 5))
    {
        case 0: { Raw<char> b(t.size() + 1); estd::layer3::basic_string<char, false> o(b.data(), 0, (unsigned short)b.n);
            o.append(t.data(), t.size()); f(o); break; }
        case 1: { estd::layer1::string<700, false> o; o.append(t.data(), t.size()); f(o); break; }
        case 2: { estd::layer1::string<701> o(t.c_str()); f(o); break; }
        case 3: { CStr b(t); estd::layer2::const_string o((const char*)b); f(o); break; }
        default: { Raw<char> b(t.size() + 1); memcpy(b.data(), t.c_str(), b.n);
            estd::layer3::basic_string<char> o(b.data(), t.size(), (unsigned short)b.n); f(o); break; }
    }
    VF_EV("cross-layer copy");
}

// the string's own content as the argument: what it held when the call was made is what is used
template <class P> void own_argument(Ctx& c, P& p, std::string& m)
{
    auto& s = p.s();
    size_t room = p.maxlen - m.size(), at = c.rng.below(m.size() + 1), k = c.rng.below(m.size()), n = c.rng.below(m.size() - k + 1);
    if(n > room) n = room;
    const std::string t = m.substr(k, n);
    const char* d = s.clock(); s.cunlock();
    const std::string tail = m.substr(k);
    switch(c.rng.below(P::nt ? 11 : 8))
    {
        case 8: if(tail.size() <= room) { c.op("+= own cstr %zu", k); s += d + k; m += tail; VF_EV("own content as argument"); } break;
        case 9: if constexpr(!P::dynamic && std::is_assignable<typename P::S&, const char*>::value) { c.op("= own cstr %zu", k); s = d + k; m = tail; VF_EV("own content as argument"); } break;
        case 10: if(tail.size() <= room) { c.op("insert(%zu, own cstr %zu)", at, k); s.insert(at, d + k); m.insert(at, tail); VF_EV("own content as argument"); } break;
        case 0: if(m.size() <= room) { c.op("append(itself)"); s.append(s); m += std::string(m); VF_EV("own content as argument"); } break;
        case 1: if(m.size() <= room) { c.op("+= itself"); s += s; m += std::string(m); VF_EV("own content as argument"); } break;
        case 2: if(m.size() <= room) { c.op("insert(%zu,itself)", at); s.insert(at, s); m.insert(at, std::string(m)); VF_EV("own content as argument"); } break;
        case 3: c.op("insert(%zu,own %zu+%zu)", at, k, n); s.insert(at, d + k, n); m.insert(at, t); VF_EV("own content as argument"); break;
        case 4: c.op("append(own %zu+%zu)", k, n); s.append(d + k, n); m += t; VF_EV("own content as argument"); break;
        case 5: if(room) { c.op("push_back(own %zu)", k); s.push_back(d[k]); m += char(m[k]); VF_EV("own content as argument"); } break;
        case 6: c.op("= itself"); s = *&s; VF_EV("own content as argument"); break;
        default: if(room) { c.op("insert(it %zu,own %zu)", at, k); s.insert(s.begin() + at, d[k]); m.insert(at, 1, char(m[k])); VF_EV("own content as argument"); }
    }
}

template <class P> void history(Ctx& c)
{
    P::name(c);
    P p(c);
    auto& s = p.s();
    std::string m;
    verify(c, p, m);
    unsigned steps = 8 + c.rng.below(53), changed = 0;
    for(unsigned i = 0; i < steps; ++i)
    {
        size_t room = p.maxlen - m.size();
        std::string before = m;
        size_t cap0 = P::dynamic ? (size_t)s.capacity() : 0;
        if(P::dynamic && !s.capacity())
        {
            // the handle of a never-allocated string is null and the allocator interface can only
            // lock() it into a reference: the first edit must be a growing one
            auto t = gen(c, 20, P::nt) + "f"; Bytes z(t); c.op("append %s", show(t).c_str());
            s.append(z.p(), t.size()); m = t;
        }
        else switch(c.rng.below(23))
        {
            case 22: if(m.size()) own_argument(c, p, m); break;
            case 0: { auto t = gen(c, p.maxlen, true); for(auto& ch : t) if(!ch) ch = 'z'; CStr z(t); if constexpr(!P::dynamic && std::is_assignable<typename P::S&, const char*>::value) { c.op("= cstr %s", show(t).c_str()); s = (const char*)z; m = t; } break; }
            case 1: { auto t = gen(c, p.maxlen, P::nt); Bytes z(t); c.op("clear;append %s", show(t).c_str()); s.clear(); m.clear(); verify(c, p, m); s.append(z.p(), t.size()); m = t; break; }
            case 2: case 3: if(room) { char ch = (char)c.rng.range(P::nt ? 1 : 0, 255); c.op("+= %02x", (unsigned char)ch); s += ch; m += ch; } break;
            case 4: { auto t = gen(c, room, true); for(auto& ch : t) if(!ch) ch = 'y'; CStr z(t); c.op("+= cstr %s", show(t).c_str()); s += (const char*)z; m += t; break; }
            case 5: { auto t = gen(c, room, P::nt); Bytes z(t); c.op("append %s", show(t).c_str()); s.append(z.p(), t.size()); m += t; break; }
            case 6: { size_t n = c.rng.below((room < 9 ? room : 9) + 1); char ch = 'A' + c.rng.below(20); c.op("append(%zu,%c)", n, ch); s.append(n, ch); m.append(n, ch); break; }
            case 7: { auto t = gen(c, room, P::nt); c.op("append other %s", show(t).c_str());
                with_other(c, t, [&](auto& o) { s.append(o); }); m += t; break; }
            case 8: { auto t = gen(c, room, P::nt); Bytes z(t); c.op("append std::sv %s", show(t).c_str()); s.append(VF_SV(z.p(), t.size())); m += t; break; }
            case 9: { auto t = gen(c, room, P::nt); size_t k = c.rng.below(m.size() + 1); Bytes z(t);
                if(P::dynamic && !s.capacity()) break;
                c.op("insert(%zu,%s,n)", k, show(t).c_str()); s.insert(k, z.p(), t.size()); m.insert(k, t); VF_EV("insert"); break; }
            case 10: { auto t = gen(c, room, true); for(auto& ch : t) if(!ch) ch = 'x'; size_t k = c.rng.below(m.size() + 1); CStr z(t);
                if(P::dynamic && !s.capacity()) break;
                c.op("insert(%zu,cstr %s)", k, show(t).c_str()); s.insert(k, (const char*)z); m.insert(k, t); VF_EV("insert"); break; }
            case 11: { auto t = gen(c, room, P::nt); size_t k = c.rng.below(m.size() + 1);
                if(P::dynamic && !s.capacity()) break;
                c.op("insert(%zu,other %s)", k, show(t).c_str());
                with_other(c, t, [&](auto& o) { s.insert(k, o); }); m.insert(k, t); VF_EV("insert"); break; }
            case 12: if(room && !(P::dynamic && !s.capacity())) { size_t k = c.rng.below(m.size() + 1); char ch = 'a' + c.rng.below(26);
                c.op("insert(it %zu,%c)", k, ch); s.insert(s.begin() + k, char(ch)); m.insert(m.begin() + k, ch); VF_EV("insert"); } break;
            case 13: case 14: if(m.size()) { size_t k = c.rng.below(m.size()), n = c.rng.below(m.size() + 2) + (c.rng.chance(1, 8) ? c.rng.coin() ? 256 : 65536 : 0); c.op("erase(%zu,%zu)", k, n); s.erase(k, n); m.erase(k, n); VF_EV("erase"); } break;
            case 15: if(m.size()) { size_t k = c.rng.below(m.size()); c.op("erase(%zu)", k); s.erase(k); m.erase(k); VF_EV("erase"); } break;
            case 16: if constexpr(!P::dynamic) if(m.size()) { c.op("pop_back"); s.pop_back(); m.pop_back(); } break;
            case 17: if(room) { char ch = 'k'; c.op("push_back"); if(c.rng.coin()) s.push_back(ch); else s.push_back('k'); m.push_back(ch); } break;
            case 18: if(m.size()) { size_t n = c.rng.below(m.size() + 1); c.op("resize(%zu)", n); s.resize(n); m.resize(n); } break;
            case 19: if(m.size()) { size_t k = c.rng.below(m.size()); char ch = (char)c.rng.range(1, 255); c.op("[%zu]=%02x", k, (unsigned char)ch); s[k] = ch; m[k] = ch; } break;
            case 20: { auto t = gen(c, p.maxlen, P::nt); c.op("= other %s", show(t).c_str()); with_other(c, t, [&](auto& o) {
                    // the implicit copy assignment of a wrapping (layer2/3) string re-targets the view, so it is
                    // not a copy of content: only assignments that convert are content copies there
                    if constexpr(std::is_same<std::decay_t<decltype(o)>, typename P::S>::value && !P::owning) { s.clear(); s.append(o); }
                    else s = o; }); m = t; break; }
            default: if(c.rng.chance(1, 3)) { c.op("clear"); if(!(P::dynamic && !s.capacity())) s.clear(); m.clear(); }
                else if(m.size() && room) { size_t k = c.rng.below(m.size() + 1); auto t = gen(c, room, P::nt); Bytes z(t); c.op("insert(it %zu,range %zu)", k, t.size());
                    s.insert(s.begin() + k, z.p(), z.p() + t.size()); m.insert(k, t); }
        }
        VF_EV("edit");
        if(m.size() == p.maxlen && m != before) VF_EV("full to the last character");
        if(P::dynamic && s.capacity() > cap0) VF_EV("heap growth");
        if(m != before) ++changed;
        verify(c, p, m);
        if(c.rng.chance(1, 4) && !(P::dynamic && !s.capacity())) walk(c, p, m);
    }
    if(changed >= 4) c.nt();
}

// constructors and copies produce independent, equal content
template <size_t N, bool NT> void construct(Ctx& c)
{
    using S = estd::layer1::string<N, NT>;
    auto t = gen(c, N - (NT ? 1 : 0), true);
    for(auto& ch : t) if(!ch) ch = 'q';
    c.op("construct<%zu,%d> %s", N, NT, show(t).c_str());
    CStr z(t); Bytes b(t);
    auto same = [&](S& s, const char* what)
    {
        VF_REQ(s.size() == t.size() && memcmp(s.data(), t.data(), t.size()) == 0, "%s: %s, expected %s", what, show(s.data(), s.size()).c_str(), show(t).c_str());
    };
    Boxed<S> a((const char*)z); same(*a, "from C string");
    Boxed<S> d(b.p(), t.size()); same(*d, "from pointer and count");
    Boxed<S> e((const S&)*a); same(*e, "copy construction");
    with_other(c, t, [&](auto& o) { Boxed<S> f(o); same(*f, "from another layer"); });
    Boxed<S> g((const char*)"");
    *g = *a; same(*g, "copy assignment");
    if(t.size())
    {
        std::string keep = t;
        (*e)[0] = 'Z'; same(*a, "source after its copy was modified");
        t[0] = 'Y'; (*g)[0] = 'Y'; same(*g, "copy after modification");
        t = keep; same(*a, "source after its copy was modified");
        c.nt();
    }
    std::string_view unused; (void)unused;
}

}

