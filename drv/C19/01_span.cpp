#include "d_sb.h"
template <class Ch, class CC> static void in_span(Ctx& c, size_t max)
{
    auto data = any_text<Ch>(c, c.rng.chance(1, 8) ? 700 : max, true); if(c.rng.chance(1, 30)) { size_t n = 65530 + c.rng.below(200); data.assign(n, 0); for(auto& ch : data) ch = any_char<Ch>(c, true); VF_EV("more than 64 KiB"); }
    Raw<Ch> box(data.size()); for(size_t i = 0; i < data.size(); ++i) box[i] = data[i];
    typedef estd::detail::basic_ispanbuf<CC> Sb;
    estd::span<CC> sp(box.data(), data.size()); Sb sb(sp); size_t pos = 0; int n = 1 + c.rng.below(40);
    if(data.size() > 60000) { pos = c.rng.coin() ? data.size() - c.rng.below(20) : c.rng.below(20); long r = (long)sb.pubseekoff((long)pos, ib::beg, ib::in); VF_REQ(r == (long)pos, "seek to %zu reports %ld", pos, r); }
    while(n--) { read_step<UNGET | SEEK | EXACT_AVAIL | CONTIG>(c, sb, data, pos); c.nt(); c.state(data.size() * 1000 + pos); }
    VF_EV("span read");
}
VF_GROUP_W(in_span_const, 200) { in_span<char, const char>(c, 40); }
VF_GROUP_W(in_span_mutable, 100) { in_span<char, char>(c, 40); }
#ifndef VF_NARROW // the library's own traits have no wide flavor
VF_GROUP_W(in_span_wide, 100) { in_span<wchar_t, wchar_t>(c, 20); }
#endif

template <class Ch> static void out_span(Ctx& c)
{
    size_t cap = c.rng.chance(1, 8) ? c.rng.below(700) : c.rng.chance(1, 60) ? 65500 + c.rng.below(100) : c.rng.below(40); if(cap > 256) VF_EV("long span"); Raw<Ch> box(cap); Ch pat; memset(&pat, 0xA5, sizeof pat); std::basic_string<Ch> want(cap, pat);
    typedef estd::detail::streambuf<estd::internal::impl::out_span_streambuf<Ch>> Sb; typedef typename Sb::traits_type tr;
    estd::span<Ch> sp(box.data(), cap); Sb sb(sp); size_t pos = 0; int n = 1 + c.rng.below(30);
    while(n--)
    {
        switch(c.rng.below(8))
        {
            case 0: case 1: { Ch ch = any_char<Ch>(c, true); c.op("sputc(%lx) at %zu", (long)ch, pos); auto r = sb.sputc(ch);
                if(pos < cap) { VF_REQ(r == std::char_traits<Ch>::to_int_type(ch), "sputc at %zu of %zu returned %ld", pos, cap, (long)r); want[pos++] = ch; } else { VF_REQ(r == tr::eof(), "sputc into a full span returned %ld", (long)r); VF_EV("full"); } VF_EV("put"); break; }
            case 2: case 3: case 4: { auto s = any_text<Ch>(c, c.rng.chance(1, 6) ? cap + 3 : 12, true); Raw<Ch> src(s.size()); for(size_t i = 0; i < s.size(); ++i) src[i] = s[i]; c.op("sputn(%zu) at %zu", s.size(), pos);
                auto r = sb.sputn(src.data(), (int)s.size()); size_t w = s.size() < cap - pos ? s.size() : cap - pos; VF_REQ((size_t)r == w, "sputn(%zu) at %zu of %zu returned %ld", s.size(), pos, cap, (long)r); want.replace(pos, w, s, 0, w); pos += w; if(w < s.size()) VF_EV("full"); VF_EV("bulk write"); break; }
            case 5: { int r = sb.pubsync(); VF_REQ(r == 0, "sync returned %d", r); break; }
            default:
            {
                long to = c.rng.chance(1, 8) ? (c.rng.coin() ? -1 - (long)c.rng.below(5) : (long)cap + 1 + (long)c.rng.below(5)) : c.rng.chance(1, 4) ? (long)(cap - c.rng.below(cap < 4 ? cap + 1 : 4)) : (long)c.rng.below(cap + 1); long r;
                switch(c.rng.below(4))
                {
                    case 0: c.op("pubseekoff(%ld, beg)", to); r = (long)sb.pubseekoff(to, ib::beg, c.rng.coin() ? ib::out : ib::in | ib::out); break;
                    case 1: c.op("pubseekoff(%ld, cur)", to - (long)pos); r = (long)sb.pubseekoff(to - (long)pos, ib::cur, c.rng.coin() ? ib::out : ib::in | ib::out); break;
                    case 2: c.op("pubseekoff(%ld, end)", to - (long)cap); r = (long)sb.pubseekoff(to - (long)cap, ib::end, c.rng.coin() ? ib::out : ib::in | ib::out); break;
                    default: { c.op("pubseekoff(in)"); r = (long)sb.pubseekoff(to, ib::beg, ib::in); VF_REQ(r == -1, "an input seek on an output buffer reports %ld", r); to = -1; }
                }
                if(to < 0 || to > (long)cap) { VF_REQ(r == -1, "a seek outside the span (to %ld of %zu) reports %ld", to, cap, r); VF_EV("seek refused"); } else { VF_REQ(r == to, "seek to %ld reports %ld", to, r); pos = to; VF_EV("seek"); }
            }
        }
        VF_REQ((size_t)sb.pos() == pos && sb.pptr() == box.data() + pos && sb.pbase() == box.data() && sb.epptr() == box.data() + cap, "put area pointers do not match position %zu of %zu", pos, cap);
        VF_REQ(std::basic_string<Ch>(box.data(), cap) == want, "span holds \"%s\", expected \"%s\"", esc(std::basic_string<Ch>(box.data(), cap)).c_str(), esc(want).c_str());
        c.nt(); c.state(cap * 1000 + pos);
    }
    VF_EV("span write");
}
VF_GROUP_W(out_span_char, 200) { out_span<char>(c); }
#ifndef VF_NARROW // the library's own traits have no wide flavor
VF_GROUP_W(out_span_wide, 100) { VF_EV("wide"); out_span<wchar_t>(c); }
#endif
VF_GROUP_W(out_span_setbuf, 50)
{
    size_t cap = 1 + c.rng.below(20), cap2 = 1 + c.rng.below(20); Raw<char> a(cap), b(cap2); estd::span<char> sp(a.data(), cap); estd::detail::ospanbuf sb(sp);
    size_t n = c.rng.below(cap + 1); for(size_t i = 0; i < n; ++i) sb.sputc('a'); sb.setbuf_experimental(b.data(), (int)cap2); size_t m = 0; while(sb.sputc('b') == 'b' && m < 100) ++m;
    VF_REQ(m == cap2, "%zu characters accepted by a new area of %zu", m, cap2); for(size_t i = 0; i < cap; ++i) VF_REQ(a[i] == (i < n ? 'a' : (char)0xA5), "the old area changed"); VF_EV("setbuf"); c.nt();
}
