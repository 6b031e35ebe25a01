#include "vf.h"
#include "values.h"
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <string>
#include <deque>
#include <limits>
using namespace vf;
namespace {
typedef estd::ios_base ib;
template <class Ch> std::string esc(const std::basic_string<Ch>& s) { std::string r; for(Ch ch : s) { char b[16]; if(ch >= 32 && ch < 127) r += (char)ch; else { snprintf(b, sizeof b, "\\x%lx", (unsigned long)(typename std::make_unsigned<Ch>::type)ch); r += b; } } return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
// any character, including those whose value looks like the end marker when sign extended
template <class Ch> Ch any_char(Ctx& c, bool nul) { if(nul && c.rng.chance(1, 10)) return (Ch)0; Ch ch = c.rng.chance(1, 6) ? (Ch)(sizeof(Ch) == 1 ? 0xff : 0xffff) : (Ch)(sizeof(Ch) == 1 ? c.rng.below(256) : c.rng.below(0x1ff)); if(!nul && ch == 0) ch = (Ch)'n'; return ch; }
template <class Ch> std::basic_string<Ch> any_text(Ctx& c, size_t max, bool nul) { std::basic_string<Ch> s; size_t n = c.rng.below(max + 1); while(n--) s += any_char<Ch>(c, nul); return s; }

// ---------------------------------------------------------------- reading
enum { UNGET = 1, SEEK = 2, EXACT_AVAIL = 4, CONTIG = 8 };
// one reading step on a buffer which has delivered [0, pos) of data
template <unsigned caps, class Sb, class Ch> void read_step(Ctx& c, Sb& sb, const std::basic_string<Ch>& data, size_t& pos)
{
    typedef typename Sb::traits_type tr; typedef typename tr::int_type it;
    size_t left = data.size() - pos;
    auto at = [&](size_t i) -> it { return i < data.size() ? std::char_traits<Ch>::to_int_type(data[i]) : std::char_traits<Ch>::eof(); };
    switch(c.rng.below(caps & SEEK ? 10 : 7))
    {
        case 0: { c.op("sgetc at %zu", pos); it r = sb.sgetc(); VF_REQ(r == at(pos), "sgetc at %zu of %zu is %ld, expected %ld", pos, data.size(), (long)r, (long)at(pos)); VF_EV("peek"); break; }
        case 1: { c.op("sbumpc at %zu", pos); it r = sb.sbumpc(); VF_REQ(r == at(pos), "sbumpc at %zu of %zu is %ld, expected %ld", pos, data.size(), (long)r, (long)at(pos)); if(left) ++pos; else VF_EV("read at the end"); VF_EV("bump"); break; }
        case 2: { c.op("snextc at %zu", pos); it r = sb.snextc(), w = left ? at(pos + 1) : at(pos); VF_REQ(r == w, "snextc at %zu of %zu is %ld, expected %ld", pos, data.size(), (long)r, (long)w); if(left) ++pos; break; }
        case 3: case 4:
        {
            size_t n = c.rng.chance(1, 6) ? left + c.rng.below(10) : c.rng.below(c.rng.chance(1, 8) ? 700 : 12); Raw<Ch> box(n); c.op("sgetn(%zu) at %zu", n, pos);
            auto r = sb.sgetn(box.data(), (estd::streamsize)n); size_t w = n < left ? n : left;
            VF_REQ((size_t)r == w, "sgetn(%zu) at %zu of %zu returned %ld", n, pos, data.size(), (long)r);
            std::basic_string<Ch> got(box.data(), w); VF_REQ(got == data.substr(pos, w), "sgetn at %zu read \"%s\", expected \"%s\"", pos, esc(got).c_str(), esc(data.substr(pos, w)).c_str());
            for(size_t i = w * sizeof(Ch); i < n * sizeof(Ch); ++i) VF_REQ(((unsigned char*)box.data())[i] == 0xA5, "sgetn stored beyond what it reported");
            if(w < n) VF_EV("bulk read cut short"); pos += w; VF_EV("bulk read"); break;
        }
        case 5: { auto r = sb.in_avail(); c.op("in_avail at %zu", pos);
            if(caps & EXACT_AVAIL) VF_REQ((long)r == (left ? (long)left : -1), "in_avail at %zu of %zu is %ld", pos, data.size(), (long)r);
            else VF_REQ((long)r <= (long)left && (r >= 0 || !left), "in_avail at %zu of %zu is %ld", pos, data.size(), (long)r);
            VF_EV("available"); break; }
        case 6: if constexpr(caps & UNGET) { c.op("sungetc at %zu", pos); it r = sb.sungetc(), w = pos ? at(pos - 1) : std::char_traits<Ch>::eof(); VF_REQ(r == w, "sungetc at %zu is %ld, expected %ld", pos, (long)r, (long)w); if(pos) --pos; VF_EV("unget"); } break;
        default: if constexpr(caps & SEEK)
        {
            long to = c.rng.chance(1, 8) ? (c.rng.coin() ? -1 - (long)c.rng.below(5) : (long)data.size() + 1 + (long)c.rng.below(5)) : (long)c.rng.below(data.size() + 1); long r;
            switch(c.rng.below(4))
            {
                case 0: c.op("pubseekoff(%ld, beg)", to); r = (long)sb.pubseekoff(to, ib::beg, ib::in); break;
                case 1: c.op("pubseekoff(%ld, cur) at %zu", to - (long)pos, pos); r = (long)sb.pubseekoff(to - (long)pos, ib::cur, ib::in); break;
                case 2: c.op("pubseekoff(%ld, end)", to - (long)data.size()); r = (long)sb.pubseekoff(to - (long)data.size(), ib::end, ib::in); break;
                default: c.op("pubseekpos(%ld)", to); r = (long)sb.pubseekpos((int)to, ib::in);
            }
            if(to < 0 || to > (long)data.size()) { VF_REQ(r == -1, "a seek outside the buffer (to %ld of %zu) reports %ld", to, data.size(), r); VF_EV("seek refused"); }
            else { VF_REQ(r == to, "seek to %ld reports %ld", to, r); pos = (size_t)to; VF_EV("seek"); }
        }
    }
    if constexpr(caps & CONTIG)
        VF_REQ((size_t)(sb.egptr() - sb.gptr()) == data.size() - pos && (size_t)(sb.gptr() - sb.eback()) == pos && (pos == data.size() || *sb.gptr() == data[pos]), "get area pointers do not match position %zu of %zu", pos, data.size());
}

// a source written by a user of the library, handing out what it has in arbitrary amounts
template <class Ch> struct Source { std::basic_string<Ch> data; size_t pos = 0; size_t ready = 0; Rng* rng = nullptr; unsigned calls = 0; bool stutter = false; };
template <class Ch> struct feed_impl : estd::internal::impl::streambuf_base<estd::char_traits<Ch>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<Ch>> b; using typename b::traits_type; using typename b::int_type; typedef Ch char_type;
    Source<Ch>* s; explicit feed_impl(Source<Ch>* s) : s(s) {}
    estd::streamsize xsgetn(Ch* p, estd::streamsize n)
    { ++s->calls; if(s->stutter && s->rng->coin()) return 0; size_t k = 0, lim = s->rng && s->rng->coin() ? 1 + s->rng->below(6) : (size_t)-1; while((estd::streamsize)k < n && k < lim && s->pos < s->ready) p[k++] = s->data[s->pos++]; return (estd::streamsize)k; }
};
template <class Ch> using feedbuf = estd::detail::streambuf<feed_impl<Ch>>;

// a sink that takes only so much at a time until it is told to accept more
template <class Ch> struct Sink { std::basic_string<Ch> text; size_t limit = (size_t)-1; unsigned calls = 0, refused = 0; };
template <class Ch> struct sink_impl : estd::internal::impl::streambuf_base<estd::char_traits<Ch>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<Ch>> b; using typename b::traits_type; using typename b::int_type; typedef Ch char_type;
    Sink<Ch>* t; explicit sink_impl(Sink<Ch>* t) : t(t) {}
    int_type sputc(Ch ch) { if(t->text.size() >= t->limit) { ++t->refused; return traits_type::eof(); } t->text.push_back(ch); return traits_type::to_int_type(ch); }
    estd::streamsize xsputn(const Ch* s, estd::streamsize n) { ++t->calls; estd::streamsize k = 0; while(k < n && t->text.size() < t->limit) t->text.push_back(s[k++]); if(k < n) ++t->refused; return k; }
};
template <class Ch> using sinkbuf = estd::detail::streambuf<sink_impl<Ch>>;
}
