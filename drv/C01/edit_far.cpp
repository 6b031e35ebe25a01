#include "d_strings.h"
#include <estd/string_view.h>
// edits at positions, and with arguments, past 65535
VF_GROUP_W(far, 1)
{
    typedef estd::layer1::string<200000> S; Boxed<S> bs; S& s = *bs; size_t n = 65600 + c.rng.below(3000); std::string t(n, 'x'); for(size_t i = 0; i < n; ++i) t[i] = (char)('!' + (i * 7 + i / 251) % 90); std::string m;
    Boxed<estd::layer1::string<70000> > other; other->append(t.data(), n); c.op("%zu characters", n);
    auto same = [&](const char* what) { VF_EQ((size_t)s.size(), m.size(), what); const char* d = s.clock(); VF_REQ(memcmp(d, m.data(), m.size()) == 0, "%s: other content", what); VF_REQ(d[m.size()] == 0, "%s: terminator", what); s.cunlock(); };
    switch(c.rng.below(3)) { case 0: s += *other; break; case 1: s = *other; break; default: s.append(t.data(), n); } m = t; same("grown far");
    for(int i = 0; i < 14; ++i)
    {
        size_t at = 65537 + c.rng.below(m.size() - 65537);
        switch(c.rng.below(8))
        {
            case 0: c.op("push_back"); s.push_back('+'); m += '+'; break;
            case 1: c.op("pop_back"); s.pop_back(); m.pop_back(); break;
            case 2: { size_t k = c.rng.below(m.size() - at + 1); if(k > 100) k = 100; if(m.size() - k < 65600) break; c.op("erase(%zu, %zu)", at, k); s.erase(at, k); m.erase(at, k); break; }
            case 3: { if(m.size() < 65700) break; c.op("erase(0, 3)"); s.erase(0, 3); m.erase(0, 3); break; }
            case 4: { if(m.size() + n > 190000) break; c.op("+= %zu", n); s += *other; m += t; break; }
            case 5: { c.op("[%zu]", at); s[at] = '~'; m[at] = '~'; VF_EQ((char)s.at(at), '~', "at"); VF_EQ((char)s.back(), m.back(), "back"); break; }
            case 6: { size_t k = 65600 + c.rng.below(2000); c.op("resize(%zu)", k); if(k > m.size()) break; s.resize(k); m.resize(k); break; }
            default: { c.op("+= text"); s += "abc"; m += "abc"; }
        }
        same("far edit"); VF_EV("far edits");
    }
    s = ""; m.clear(); same("emptied"); c.nt(); c.mark(n);
}
