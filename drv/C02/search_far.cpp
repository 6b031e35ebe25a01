#include "vf.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <string_view>
using namespace vf;
namespace {
template <class S, class P> void compare_all(Ctx& c, const S& a, const P& b, const std::string& x, const std::string& y, const char* what)
{
    VF_EQ((bool)(a == b), x == y, what); int w = x.compare(y), g = a.compare(b); VF_EQ((g > 0) - (g < 0), (w > 0) - (w < 0), what);
}
}
// positions, counts and sizes past 65535; sizes 65536 apart
VF_GROUP_W(far, 1)
{
    size_t n = 66000 + c.rng.below(2000); std::string t(n, 'a'); for(size_t i = 0; i < n; i += 1 + c.rng.below(40)) t[i] = (char)('a' + c.rng.below(3)); size_t mark = 65600 + c.rng.below(n - 65610); t.replace(mark, 5, "Q!Q?Q"); c.op("%zu characters, marked at %zu", n, mark);
    Boxed<estd::layer1::string<70000> > s, u; s->append(t.data(), n); Raw<char> raw(n); memcpy(raw.data(), t.data(), n); estd::string_view v(raw.data(), n);
    VF_EQ((size_t)s->size(), n, "size"); VF_EQ((size_t)v.size(), n, "size");
    compare_all(c, *s, *u, t, std::string(), "against nothing");
    // a prefix shorter by 65536, and the same text with one far difference
    std::string p = t.substr(0, n - 65536); u->append(p.data(), p.size()); compare_all(c, *s, *u, t, p, "sizes 65536 apart"); compare_all(c, *u, *s, p, t, "sizes 65536 apart"); VF_REQ(!(v == estd::string_view(raw.data(), n - 65536)), "views 65536 apart are equal"); VF_REQ(s->starts_with(estd::string_view(p.data(), p.size())), "starts with its prefix"); VF_REQ(!u->starts_with(v), "starts with something longer");
    u->clear(); u->append(t.data(), n); compare_all(c, *s, *u, t, t, "same text"); size_t d = 65540 + c.rng.below(n - 65540); std::string q = t; q[d] = (char)(q[d] + 1); (*u)[d] = q[d]; compare_all(c, *s, *u, t, q, "far difference"); compare_all(c, *u, *s, q, t, "far difference"); VF_REQ(!(*s == estd::string_view(q.data(), n)), "view with a far difference");
    // searching
    VF_EQ((size_t)s->find("Q!Q"), mark, "find"); VF_EQ((size_t)s->find("Q", mark + 1), mark + 2, "find from a far position"); VF_EQ((size_t)s->rfind("Q"), mark + 4, "rfind"); VF_EQ((size_t)s->find_first_of("?!"), mark + 1, "find_first_of"); VF_EQ((size_t)s->find_last_of("?!"), mark + 3, "find_last_of");
    VF_EQ((size_t)v.find("Q!Q"), mark, "view find");
    // taking parts
    size_t at = 65537 + c.rng.below(n - 65537), len = c.rng.below(n - at + 1); Raw<char> out(len); VF_EQ((size_t)s->copy(out.data(), len, at), len, "copy"); VF_REQ(memcmp(out.data(), t.data() + at, len) == 0, "copy(%zu) from %zu", len, at);
    Raw<char> all(n); VF_EQ((size_t)s->copy(all.data(), n), n, "copy"); VF_REQ(memcmp(all.data(), t.data(), n) == 0, "copy of everything"); estd::string_view w = v.substr(at, len); VF_REQ(w.data() == raw.data() + at && (size_t)w.size() == len, "substr(%zu, %zu)", at, len); VF_EQ((char)v[at], t[at], "view element"); VF_EQ((char)v.at(at), t[at], "view at"); VF_EQ((char)(*s)[at], t[at], "element"); VF_EQ((char)s->at(at), t[at], "at"); VF_EQ((char)v.back(), t.back(), "back");
    VF_EV("far positions"); c.nt(); c.mark(mix(n * 70001 + mark));
}
