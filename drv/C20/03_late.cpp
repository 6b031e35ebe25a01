// sources that do not have everything yet
#include "d_is.h"
struct late_impl : estd::internal::impl::streambuf_base<estd::char_traits<char>>, estd::internal::streambuf_gptr_tag
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char>> b; using b::traits_type; using b::int_type; typedef char char_type;
    struct Src { std::string d; size_t pos = 0, ready = 0; unsigned asks = 0, every = 0; size_t step = 1; unsigned syncs = 0; int sync_result = 0; bool ended() const { return ready >= d.size(); } };
    Src* s; explicit late_impl(Src* s) : s(s) {}
    const char* eback() const { return s->d.data(); } const char* gptr() const { return s->d.data() + s->pos; } const char* egptr() const { return s->d.data() + s->ready; }
    void gbump(int n) { s->pos += n; }
    char xsgetc() const { return *gptr(); }
    int xin_avail() const { return (int)(s->ready - s->pos); }
    // a source that delivers more each time it is asked often enough
    estd::streamsize showmanyc() const { ++s->asks; if(s->every && s->asks % s->every == 0) s->ready = std::min(s->d.size(), s->ready + s->step); if(s->ready > s->pos) return s->ready - s->pos; return s->ended() ? -1 : 0; }
    int sync() { ++s->syncs; return s->sync_result; }
    estd::streamsize xsgetn(char* p, estd::streamsize n) { estd::streamsize k = 0; while(k < n && s->pos < s->ready) p[k++] = s->d[s->pos++]; return k; }
};
typedef estd::detail::streambuf<late_impl> latebuf;
template <class S> static std::string str(const S& s) { std::string t; for(size_t i = 0; i < s.size(); ++i) t += s[i]; return t; }
VF_GROUP_W(not_yet, 150)
{
    // without blocking, a word cut short is given back and can be read again when the rest has arrived
    late_impl::Src src; src.d = prose<char>(c, 60, true); std::vector<std::string> w, g; std::string cur; for(char ch : src.d) if(space((unsigned char)ch)) { if(cur.size()) w.push_back(cur); cur.clear(); } else cur += ch; if(cur.size()) w.push_back(cur);
    estd::detail::basic_istream<latebuf> in(&src); unsigned guard = 0;
    for(;;)
    {
        VF_REQ(++guard < 1000, "no progress"); c.op(">> string at %zu with %zu of %zu", src.pos, src.ready, src.d.size()); size_t from = src.pos;
        estd::layer1::string<100, false> s; in >> s;
        if(in.rdstate() & nodatab)
        {
            VF_REQ(in.rdstate() == nodatab, "state %d while waiting for data", in.rdstate()); VF_REQ(!src.ended(), "waiting for data after the end");
            size_t p = from; while(p < src.ready && space((unsigned char)src.d[p])) ++p; VF_REQ(src.pos == p, "an unfinished word at %zu was left at %zu", p, src.pos);
            for(; p < src.ready; ++p) VF_REQ(!space((unsigned char)src.d[p]), "waiting for data although a word was complete");
            in.clear(); src.ready = std::min(src.d.size(), src.ready + 1 + c.rng.below(8)); VF_EV("word given back"); continue;
        }
        if(in.fail()) { VF_REQ(in.rdstate() == (failb | eofb), "state %d at the end", in.rdstate()); VF_REQ(src.ended() && s.empty(), "failed before the end"); break; }
        g.push_back(str(s)); if(in.eof()) in.clear(); if(c.rng.coin()) src.ready = std::min(src.d.size(), src.ready + c.rng.below(8)); VF_EV("word");
    }
    VF_REQ(g == w, "%zu words read, %zu expected", g.size(), w.size()); c.nt(); c.state(src.d.size());
}
VF_GROUP_W(readsome_late, 100)
{
    late_impl::Src src; src.d = prose<char>(c, 60, true); estd::detail::basic_istream<latebuf> in(&src); std::string g; unsigned guard = 0;
    while(!in.eof())
    {
        VF_REQ(++guard < 2000, "no progress"); size_t n = c.rng.below(6), have = src.ready - src.pos, want = std::min(n, have); bool ended = src.ended() && !have; Raw<char> b(n); c.op("readsome(%zu) with %zu ready", n, have);
        auto r = in.readsome(b.data(), (estd::streamsize)n); VF_REQ((size_t)r == want && in.eof() == ended && !in.fail(), "readsome(%zu) with %zu ready returned %ld, state %d", n, have, (long)r, in.rdstate()); g.append(b.data(), r);
        VF_REQ(in.gcount() == (estd::streamsize)want, "gcount is %ld", (long)in.gcount()); if(!have && !ended) VF_EV("nothing ready");
        if(c.rng.coin()) src.ready = std::min(src.d.size(), src.ready + c.rng.below(8));
    }
    VF_REQ(g == src.d, "text read differs"); VF_EV("read as it came"); c.nt();
}
VF_GROUP_W(synchronise, 40)
{
    // a stream passes sync on to its buffer and tells when that failed
    late_impl::Src src; src.d = prose<char>(c, 20, true); src.ready = src.d.size(); estd::detail::basic_istream<latebuf> in(&src); int n = 1 + c.rng.below(8); iostate st = goodb;
    while(n--)
    {
        if(c.rng.coin()) { auto s = (iostate)c.rng.below(16); in.clear(s); st = s; }
        src.sync_result = c.rng.chance(1, 3) ? -1 : 0; unsigned k = src.syncs; size_t p = src.pos; c.op("sync giving %d in state %d", src.sync_result, st); auto& r = in.sync(); if(src.sync_result) { st |= badb; VF_EV("sync failed"); }
        VF_REQ((void*)&r == (void*)&in && src.syncs == k + 1 && src.pos == p, "sync returned another stream, reached the buffer %u times or moved", src.syncs - k); VF_REQ(in.rdstate() == st, "state is %d after sync, expected %d", in.rdstate(), st); VF_EV("sync"); c.nt();
    }
}
template <estd::internal::istream_flags::flag_type F> static void blocking_run(Ctx& c)
{
    // a blocking stream waits until a character or the end is known, and so sees the whole text
    typedef estd::internal::flagged_istream<latebuf, F> In;
    late_impl::Src src; src.d = prose<char>(c, 60, true); src.every = 1 + c.rng.below(4); src.step = 1 + c.rng.below(4); In in(&src); Model<char> m; m.d = src.d;
    if(c.rng.coin())
    {
        std::vector<std::string> w, g; std::string cur; for(char ch : src.d) if(space((unsigned char)ch)) { if(cur.size()) w.push_back(cur); cur.clear(); } else cur += ch; if(cur.size()) w.push_back(cur);
        estd::layer1::string<100, false> s; while(in >> s) { g.push_back(str(s)); VF_REQ(g.size() <= w.size(), "more words than there are"); }
        VF_REQ(g == w && in.rdstate() == (failb | eofb), "%zu words read, %zu expected, state %d", g.size(), w.size(), in.rdstate()); VF_EV("waited for words");
    }
    else
    {
        std::string g; for(;;) { int p = in.peek(); if(p == -1) { VF_REQ(src.ended() && src.pos == src.d.size(), "peek reported the end at %zu of %zu", src.pos, src.d.size()); break; } int r = in.get(); VF_REQ(r == p, "peeked %d but got %d", p, r); g += (char)r; }
        VF_REQ(g == src.d, "text read differs"); VF_EV("waited for characters");
    }
    c.nt(); c.state(src.asks);
}
VF_GROUP_W(blocking, 150) { blocking_run<estd::internal::istream_flags::blocking>(c); }
