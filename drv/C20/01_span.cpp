#include "d_is.h"
template <class Ch, class CC, unsigned caps> static void span(Ctx& c)
{
    Model<Ch> m; m.d = prose<Ch>(c, c.rng.chance(1, 6) ? 1500 : 120, true); if(m.d.size() > 256) VF_EV("long text"); Raw<Ch> box(m.d.size()); for(size_t i = 0; i < m.d.size(); ++i) box[i] = m.d[i];
    estd::span<CC> sp(box.data(), m.d.size()); estd::detail::basic_ispanstream<CC> in(sp); int base = 10, n = 1 + c.rng.below(40);
    while(n--) step<caps>(c, in, m, base);
}
VF_GROUP_W(span_stream, 200) { span<char, char, 0>(c); VF_EV("span"); }
VF_GROUP_W(span_const_stream, 100) { span<char, const char, 0>(c); VF_EV("const span"); }
#ifndef VF_NARROW // the library's own traits have no wide flavor
VF_GROUP_W(span_wide_stream, 100) { span<wchar_t, wchar_t, NONUM | NOSTR>(c); VF_EV("wide"); }
#endif
