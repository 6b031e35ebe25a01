#include "d_sb.h"
#include <estd/string_view.h>
#include <estd/string.h>
template <class S> static auto text_of(const S& s) { typedef typename std::remove_const<typename S::value_type>::type Ch; std::basic_string<Ch> r; for(size_t i = 0, n = s.size(); i < n; ++i) r += (Ch)s[i]; return r; }
// reading and writing one growing text; cap is the most it can hold
template <class Sb, class Ch> static void both(Ctx& c, Sb& sb, std::basic_string<Ch> data, size_t cap, bool nul)
{
    typedef typename Sb::traits_type tr; size_t pos = 0; int n = 1 + c.rng.below(30);
    while(n--)
    {
        if(c.rng.coin()) read_step<UNGET | SEEK | EXACT_AVAIL>(c, sb, data, pos);
        else switch(c.rng.below(5))
        {
            case 0: case 1: { Ch ch = any_char<Ch>(c, nul); c.op("sputc(%lx) with %zu of %zu", (long)ch, data.size(), cap); auto r = sb.sputc(ch);
                if(data.size() < cap) { VF_REQ(r == std::char_traits<Ch>::to_int_type(ch), "sputc returned %ld", (long)r); data += ch; } else { VF_REQ(r == tr::eof(), "sputc into a full string returned %ld", (long)r); VF_EV("full"); } VF_EV("put"); break; }
            case 2: case 3: { auto s = any_text<Ch>(c, c.rng.chance(1, 6) ? cap + 3 : 12, nul); Raw<Ch> src(s.size()); for(size_t i = 0; i < s.size(); ++i) src[i] = s[i]; c.op("sputn(%zu) with %zu of %zu", s.size(), data.size(), cap);
                auto r = sb.sputn(src.data(), (int)s.size()); size_t w = s.size() < cap - data.size() ? s.size() : cap - data.size(); VF_REQ((size_t)r == w, "sputn(%zu) with %zu of %zu held returned %ld", s.size(), data.size(), cap, (long)r); data += s.substr(0, w); if(w < s.size()) VF_EV("full"); VF_EV("bulk write"); break; }
            default: { int r = sb.pubsync(); VF_REQ(r == 0, "sync returned %d", r); long t = (long)sb.pubseekoff(0, ib::cur, ib::out); VF_REQ(t == (long)data.size(), "output position is %ld, expected %zu", t, data.size()); VF_EV("output position"); }
        }
        auto got = text_of(sb.str()); VF_REQ(got == data, "string holds \"%s\", expected \"%s\"", esc(got).c_str(), esc(data).c_str());
        c.nt(); c.state(data.size() * 1000 + pos);
    }
}
template <size_t N, bool nt> static void l1(Ctx& c)
{
    typedef estd::layer1::basic_stringbuf<char, N, nt> Sb; const size_t cap = nt ? N - 1 : N; auto data = any_text<char>(c, cap, false);
    Sb sb(data.c_str()); both(c, sb, data, cap, !nt); VF_EV("layer1");
}
VF_GROUP_W(layer1_small, 150) { if(c.rng.coin()) l1<8, true>(c); else l1<8, false>(c); }
VF_GROUP_W(layer1_large, 150) { if(c.rng.coin()) l1<200, true>(c); else l1<200, false>(c); }
VF_GROUP_W(layer1_long, 60) { switch(c.rng.below(3)) { case 0: l1<300, true>(c); break; case 1: l1<258, false>(c); break; default: if(c.rng.chance(1, 8)) l1<66000, true>(c); else l1<257, true>(c); } VF_EV("long text"); }
#ifndef VF_NARROW // the library's own traits have no wide flavor
VF_GROUP_W(layer1_wide, 100) { typedef estd::layer1::basic_stringbuf<wchar_t, 60, false> Sb; Sb sb; both(c, sb, std::wstring(), 60, true); VF_EV("wide"); }
#endif
VF_GROUP_W(layer2, 100) { Raw<char> b(40); auto data = any_text<char>(c, 39, false); memcpy(b.data(), data.c_str(), data.size() + 1); typedef estd::layer2::basic_stringbuf<char, 40> Sb; Sb sb(b.data()); both(c, sb, data, 39, false); VF_EV("layer2"); }
VF_GROUP_W(layer3, 100)
{
    char b[48] = {0}; typedef estd::layer3::basic_stringbuf<char, true> Sb; estd::layer3::basic_string<char, true> s(b); s.clear(); Sb sb(s); both(c, sb, std::string(), 47, false); VF_EV("layer3");
}
#ifndef __cpp_concepts // the C++20 concepts do not admit references
VF_GROUP_W(referenced_string, 100)
{
    estd::layer1::string<50> s; typedef estd::detail::streambuf<estd::internal::impl::basic_stringbuf<estd::layer1::string<50>&>> Sb; Sb sb(s); both(c, sb, std::string(), 49, false); VF_EV("string by reference");
}
#endif
template <class Ch, size_t N, bool nt> static void out_only(Ctx& c)
{
    typedef estd::layer1::basic_out_stringbuf<Ch, N, nt> Sb; Sb sb; const size_t cap = nt ? N - 1 : N; std::basic_string<Ch> data; int n = 1 + c.rng.below(20);
    while(n--)
    {
        switch(c.rng.below(4))
        {
            case 0: { Ch ch = any_char<Ch>(c, !nt); auto r = sb.sputc(ch); c.op("sputc with %zu", data.size()); if(data.size() < cap) { VF_REQ(r == std::char_traits<Ch>::to_int_type(ch), "sputc returned %ld", (long)r); data += ch; } else { VF_REQ(r == Sb::traits_type::eof(), "sputc into a full string returned %ld", (long)r); VF_EV("full"); } break; }
            case 1: { c.op("clear"); sb.clear(); data.clear(); VF_EV("clear"); break; }
            case 2: { long t = (long)sb.pubseekoff(0, ib::cur, ib::out); VF_REQ(t == (long)data.size(), "output position is %ld, expected %zu", t, data.size()); break; }
            default: { auto s = any_text<Ch>(c, 12, !nt); c.op("sputn(%zu) with %zu of %zu", s.size(), data.size(), cap); auto r = sb.sputn(s.data(), (int)s.size()); size_t w = s.size() < cap - data.size() ? s.size() : cap - data.size(); VF_REQ((size_t)r == w, "sputn(%zu) with %zu of %zu held returned %ld", s.size(), data.size(), cap, (long)r); data += s.substr(0, w); }
        }
        auto got = text_of(sb.str()); VF_REQ(got == data, "string holds \"%s\", expected \"%s\"", esc(got).c_str(), esc(data).c_str()); auto v = sb.view(); VF_REQ(text_of(v) == data, "view differs from the text"); c.nt();
    }
    VF_EV("output string");
}
VF_GROUP_W(out_string, 150) { switch(c.rng.below(4)) { case 0: out_only<char, 10, true>(c); break; case 1: out_only<char, 10, false>(c); break; case 2: out_only<char, 100, true>(c); break; 
#ifndef VF_NARROW
    default: out_only<wchar_t, 30, false>(c);
#else
    default: out_only<char, 30, false>(c);
#endif
 } }
