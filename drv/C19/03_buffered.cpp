// buffers in front of another buffer: order, exactly-once delivery and truthful counts under back pressure
#include "d_sb.h"
template <class Sb, class Ch> static void through(Ctx& c, Sb& sb, Sink<Ch>& sink, size_t N)
{
    typedef typename Sb::traits_type tr; std::basic_string<Ch> acc; int n = 1 + c.rng.below(40); bool pressure = c.rng.coin(); if(pressure) sink.limit = c.rng.below(20);
    while(n--)
    {
        if(pressure && c.rng.chance(1, 3)) { sink.limit += c.rng.below(30); c.op("sink takes up to %zu", sink.limit); }
        size_t ref = sink.refused;
        switch(c.rng.below(6))
        {
            case 0: case 1: { Ch ch = any_char<Ch>(c, true); c.op("sputc(%lx) with %zu accepted, %zu delivered", (long)ch, acc.size(), sink.text.size()); auto r = sb.sputc(ch); if(r != tr::eof()) acc += ch; else { VF_REQ(sink.refused > ref, "sputc failed although the sink took everything"); VF_EV("refused"); } VF_EV("put"); break; }
            case 2: case 3: case 4: { auto s = any_text<Ch>(c, c.rng.chance(1, 5) ? 3 * N + 10 : 12, true); Raw<Ch> src(s.size()); for(size_t i = 0; i < s.size(); ++i) src[i] = s[i]; c.op("sputn(%zu) with %zu accepted, %zu delivered", s.size(), acc.size(), sink.text.size());
                auto r = sb.sputn(src.data(), (int)s.size()); VF_REQ(r >= 0 && (size_t)r <= s.size(), "sputn(%zu) returned %ld", s.size(), (long)r); if((size_t)r < s.size()) { VF_REQ(sink.refused > ref, "sputn(%zu) accepted only %ld although the sink took everything", s.size(), (long)r); VF_EV("refused"); } acc += s.substr(0, r); if(s.size() > N) VF_EV("larger than the buffer"); VF_EV("bulk write"); break; }
            default: { c.op("pubsync with %zu accepted, %zu delivered", acc.size(), sink.text.size()); int r = sb.pubsync(); if(r == 0) VF_REQ(sink.text == acc, "sync succeeded with %zu of %zu characters delivered", sink.text.size(), acc.size()); else { VF_REQ(sink.refused > ref, "sync failed although the sink took everything"); VF_EV("sync refused"); } VF_EV("sync"); }
        }
        VF_REQ(sink.text.size() <= acc.size() && acc.compare(0, sink.text.size(), sink.text) == 0, "delivered \"%s\" of accepted \"%s\"", esc(sink.text).c_str(), esc(acc).c_str());
        VF_REQ(acc.size() - sink.text.size() <= N, "%zu characters accepted but not delivered by a buffer of %zu", acc.size() - sink.text.size(), N);
        c.nt(); c.state((acc.size() - sink.text.size()) * 100000 + sink.text.size());
    }
    sink.limit = (size_t)-1; c.op("final sync"); int r = sb.pubsync();
    VF_REQ(r == 0 && sink.text == acc, "after the final sync (%d) the sink holds \"%s\", accepted \"%s\"", r, esc(sink.text).c_str(), esc(acc).c_str()); VF_EV("all delivered");
}
template <unsigned N> static void sbuf(Ctx& c) { Sink<char> s; sinkbuf<char> back(&s); estd::internal::out_buffered_stringbuf<sinkbuf<char>&, N> sb(back); through(c, sb, s, N); VF_EV("string buffered"); }
VF_GROUP_W(buffered_string, 200) { switch(c.rng.below(4)) { case 0: sbuf<1>(c); break; case 1: sbuf<7>(c); break; case 2: if(c.rng.coin()) sbuf<300>(c); else sbuf<64>(c); break; default: sbuf<16>(c); } }
template <unsigned N> static void obip(Ctx& c) { Sink<char> s; sinkbuf<char> back(&s); estd::internal::out_bipbuf_streambuf<sinkbuf<char>&, N> sb(back); through(c, sb, s, N); VF_EV("bip buffered"); }
VF_GROUP_W(buffered_bip, 250) { switch(c.rng.below(4)) { case 0: obip<1>(c); break; case 1: obip<7>(c); break; case 2: if(c.rng.coin()) obip<300>(c); else obip<64>(c); break; default: obip<16>(c); } }
template <unsigned N> static void wbip(Ctx& c) { Sink<wchar_t> s; sinkbuf<wchar_t> back(&s); estd::internal::out_bipbuf_streambuf<sinkbuf<wchar_t>&, N> sb(back); through(c, sb, s, N); VF_EV("wide bip"); }
VF_GROUP_W(buffered_wide, 150) { switch(c.rng.below(4)) { case 0: wbip<1>(c); break; case 1: wbip<70>(c); break; case 2: wbip<5>(c); break; default: wbip<16>(c); } }
VF_GROUP_W(buffered_bip_external, 100) { Sink<char> s; sinkbuf<char> back(&s); estd::layer1::bipbuf<16> bb; estd::internal::out_bipbuf_streambuf<sinkbuf<char>&, 0> sb(bb.native(), back); through(c, sb, s, 16); VF_EV("external bip"); }
VF_GROUP_W(buffered_twice, 100) { Sink<char> s; sinkbuf<char> back(&s); typedef estd::internal::out_buffered_stringbuf<sinkbuf<char>&, 8> In; In in(back); estd::internal::out_bipbuf_streambuf<In&, 8> sb(in);
    // the outer sync only reaches the inner buffer, so deliver everything at the end through both
    std::string acc; int n = 1 + c.rng.below(30); while(n--) { auto t = any_text<char>(c, 20, true); c.op("sputn(%zu)", t.size()); auto r = sb.sputn(t.data(), (int)t.size()); VF_REQ((size_t)r == t.size(), "accepted %ld of %zu", (long)r, t.size()); acc += t; VF_REQ(acc.compare(0, s.text.size(), s.text) == 0 && acc.size() - s.text.size() <= 16, "delivered \"%s\" of \"%s\"", esc(s.text).c_str(), esc(acc).c_str()); c.nt(); }
    sb.pubsync(); in.pubsync(); VF_REQ(s.text == acc, "delivered \"%s\", accepted \"%s\"", esc(s.text).c_str(), esc(acc).c_str()); VF_EV("stacked"); }

template <unsigned N> static void ibip(Ctx& c)
{
    Source<char> src; src.data = any_text<char>(c, c.rng.chance(1, 5) ? 900 : 120, true); src.rng = c.rng.coin() ? &c.rng : nullptr; src.ready = src.data.size();
    feedbuf<char> back(&src); estd::internal::in_bipbuf_streambuf<feedbuf<char>&, N> sb(back); size_t pos = 0; int n = 1 + c.rng.below(60);
    while(n--)
    {
        if(c.rng.chance(1, 8)) { c.op("pubsync"); sb.pubsync(); VF_EV("prefetch"); }
        read_step<0>(c, sb, src.data, pos);
        size_t held = src.pos - pos; VF_REQ(src.pos >= pos && held <= N, "the buffer took %zu and delivered %zu", src.pos, pos);
        VF_REQ((size_t)sb.in_avail() == held, "in_avail is %ld with %zu held", (long)sb.in_avail(), held);
        if(held) { size_t ct = sb.egptr() - sb.gptr(); VF_REQ(ct >= 1 && ct <= held && std::string(sb.gptr(), ct) == src.data.substr(pos, ct), "the get area does not hold the next %zu characters", ct); VF_EV("get area"); }
        c.nt(); c.state(N * 1000000 + pos * 1000 + src.pos);
    }
    VF_EV("bip input");
}
VF_GROUP_W(input_bip, 250) { switch(c.rng.below(4)) { case 0: ibip<1>(c); break; case 1: ibip<7>(c); break; case 2: if(c.rng.coin()) ibip<300>(c); else ibip<64>(c); break; default: ibip<16>(c); } }
// a source that has nothing for a while is not at its end for good
VF_GROUP_W(input_bip_late, 100)
{
    Source<char> src; src.data = any_text<char>(c, 60, true); feedbuf<char> back(&src); estd::internal::in_bipbuf_streambuf<feedbuf<char>&, 8> sb(back); std::string got; int n = 400;
    while(got.size() < src.data.size() && n--)
    {
        if(c.rng.chance(1, 3)) src.ready = std::min(src.data.size(), src.ready + c.rng.below(10));
        auto r = sb.sbumpc(); if(r != -1) got += (char)r; else { VF_REQ(got.size() == src.ready, "the end was reported with %zu of %zu available characters read", got.size(), src.ready); VF_EV("nothing yet"); }
        VF_REQ(src.data.compare(0, got.size(), got) == 0, "read \"%s\" of \"%s\"", esc(got).c_str(), esc(src.data).c_str());
        if(!n) src.ready = src.data.size(), n = 100;
    }
    c.nt();
}
// a source that now and then has nothing at the very moment it is asked: each character still comes exactly once
VF_GROUP_W(input_bip_stutter, 100)
{
    Source<char> src; src.data = any_text<char>(c, 60, true); src.ready = src.data.size(); src.rng = &c.rng; src.stutter = true; feedbuf<char> back(&src); estd::internal::in_bipbuf_streambuf<feedbuf<char>&, 8> sb(back); std::string got; int n = 5000;
    while(got.size() < src.data.size() && n--)
    {
        if(c.rng.chance(1, 4)) { Raw<char> b(5); size_t k = c.rng.below(6); c.op("sgetn(%zu) at %zu", k, got.size()); auto r = sb.sgetn(b.data(), (int)k); VF_REQ(r >= 0 && (size_t)r <= k, "sgetn returned %ld", (long)r); got.append(b.data(), r); }
        else { c.op("sbumpc at %zu, %zu taken", got.size(), src.pos); unsigned calls = src.calls; size_t p = src.pos; auto r = sb.sbumpc(); if(r != -1) { got += (char)r; if(src.pos > p && src.calls > calls + 1) VF_EV("came at the second try"); } else VF_REQ(src.pos == got.size(), "reported the end while holding %zu characters", src.pos - got.size()); }
        VF_REQ(src.data.compare(0, got.size(), got) == 0, "read \"%s\" of \"%s\"", esc(got).c_str(), esc(src.data).c_str());
    }
    VF_REQ(got == src.data, "read %zu of %zu characters", got.size(), src.data.size()); c.nt();
}
// buffers holding more than 16 bits count
VF_GROUP_W(buffered_far, 1) { switch(c.rng.below(2)) { case 0: sbuf<66000>(c); break; default: obip<67000>(c); } VF_EV("far buffers"); }
VF_GROUP_W(string_far, 2)
{
    size_t n = 65600 + c.rng.below(4000); std::string t(n, 'x'); for(size_t i = 0; i < n; ++i) t[i] = (char)(' ' + (i * 7 + i / 251) % 90); Boxed<estd::layer1::stringbuf<70000> > sb; Raw<char> b(n + 9); c.op("%zu characters", n);
    VF_EQ((size_t)sb->sputn(t.data(), (estd::streamsize)n), n, "sputn"); size_t pos = 0;
    while(pos < n) { VF_EQ((size_t)sb->in_avail(), n - pos, "in_avail"); VF_EQ((int)sb->sgetc(), (int)t[pos], "next character"); size_t k = c.rng.coin() ? 1 + c.rng.below(9) : c.rng.below(n - pos + 4), w = std::min(k, n - pos); VF_EQ((size_t)sb->sgetn(b.data(), (estd::streamsize)k), w, "sgetn"); VF_REQ(memcmp(b.data(), t.data() + pos, w) == 0, "sgetn(%zu) at %zu", k, pos); pos += w; }
    VF_EQ((int)sb->sgetc(), -1, "end"); VF_EV("far buffers"); c.nt(); c.mark(n);
}
