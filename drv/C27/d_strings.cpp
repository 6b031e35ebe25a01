// shared strings, views, spans, character tables and locales
#include "d_shared.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/charconv.h>
#include <estd/locale.h>
#include <estd/cctype.h>
#include <estd/internal/chooser.h>
#include "heap_alloc.h"
namespace {
std::string text(Ctx& c, size_t max, size_t min = 0) { std::string s; for(size_t n = min + c.rng.below(max + 1 - min); n > 0; --n) s += (char)(c.rng.chance(1, 6) ? ' ' : 'a' + c.rng.below(4)); return s; }
template <class S> uint64_t read_string(const S& s, Rng& r, const std::string& other)
{
    H h; typedef typename S::size_type Z; size_t n = s.size(); h(n); h(s.empty()); h(s.length()); estd::string_view o(other.data(), other.size());
    if(n) { h((char)s[(Z)r.below(n)]); h((char)s.at((Z)r.below(n))); h((char)s.back()); h((char)s.front()); }
    for(auto it = s.begin(); it != s.end(); ++it) h((char)*it);
    h(s == s); h(s.compare(o)); h(s.compare(other.c_str())); h(s.starts_with(o)); h(s.ends_with(o)); h(s == o); h(s == other.c_str());
    h(s.find(o)); h(s.find(o, (Z)r.below(5))); h(s.rfind(other.c_str())); h(s.find('b')); h(s.find_first_of(other.c_str())); h(s.find_last_of(other.c_str()));
    char b[40]; if(n) { size_t k = s.copy(b, (Z)(1 + r.below(30)), (Z)0); h(hash_bytes(b, k)); }
    estd::layer1::string<48> mine(s); h(mine.size()); mine += "x"; h(mine == s); h((char)mine.back());
    return h;
}
typedef estd::layer1::string<40, false> L1S; typedef estd::layer2::string<40> L2; typedef estd::layer3::basic_string<char, true> L3; typedef estd::internal::basic_string<HeapAlloc<char>, estd::internal::string_policy_helper<char, estd::char_traits<char>, estd::internal::string_options::none>> Dyn;
template <class S> void run(Ctx& c, const char* what, const S& s, const std::string& o) { shared(c, what, s, [&o](const S& x, Rng& r) { return read_string(x, r, o); }); }
}
VF_GROUP_W(string_layer1, 60) { std::string t = text(c, 38), o = text(c, 3); c.op("%s", t.c_str()); Boxed<estd::layer1::string<40>> s(t.c_str()); run(c, "null terminated fixed string", *s, o); }
VF_GROUP_W(string_sized, 60) { std::string t = text(c, 38), o = text(c, 3); c.op("%s", t.c_str()); Boxed<L1S> s; for(char x : t) *s += x; run(c, "counted fixed string", *s, o); }
VF_GROUP_W(string_layer2, 40) { std::string t = text(c, 38), o = text(c, 3); c.op("%s", t.c_str()); Raw<char> buf(40); strcpy(buf.data(), t.c_str()); L2 s(buf.data()); run(c, "string over a buffer", s, o); }
VF_GROUP_W(string_layer3, 40) { std::string t = text(c, 38), o = text(c, 3); c.op("%s", t.c_str()); Raw<char> buf(40); L3 s((char*)buf.data(), 0, (unsigned short)40); s += t.c_str(); run(c, "string over a sized buffer", s, o); }
VF_GROUP_W(string_heap, 40) { std::string t = text(c, 38, 1), o = text(c, 3); c.op("%s", t.c_str()); { Boxed<Dyn> s; for(char x : t) *s += x; run(c, "heap string", *s, o); } heap_release_all(); }
VF_GROUP_W(string_view, 40) { std::string t = text(c, 38, 1), o = text(c, 3); c.op("%s", t.c_str()); estd::string_view s(t.data(), t.size()); run(c, "string view", s, o);
    shared(c, "view cut", s, [](const estd::string_view& v, Rng& r) { H h; estd::string_view x = v; x.remove_prefix(r.below(x.size())); h(x.size()); x.remove_suffix(r.below(x.size())); for(char ch : x) h(ch); return (uint64_t)h; }); }
VF_GROUP_W(span, 30) { Raw<int> a(20); for(int i = 0; i < 20; ++i) a[i] = (int)c.rng.below(1000); estd::span<int> s(a.data(), 20);
    shared(c, "span", s, [](const estd::span<int>& v, Rng& r) { H h; size_t o = r.below(10), n = r.below(10); estd::span<int> mine(v); auto x = mine.subspan(o, n); h(x.size()); for(int i : x) h(i); for(const int& i : v) h(i); h(v.empty()); h(v[(unsigned)r.below(20)]); h(v.size_bytes()); return (uint64_t)h; }); }
// conversions out of one shared text, into buffers of each reader
VF_GROUP_W(from_chars, 60)
{
    std::string t; for(unsigned n = 1 + (unsigned)c.rng.below(12); n > 0; --n) { long long v = (long long)(c.rng.edgy() >> c.rng.below(64)); t += std::to_string(c.rng.coin() ? v : -v); t += c.rng.chance(1, 8) ? "x" : " "; }
    c.op("%s", t.c_str());
    shared(c, "numbers parsed", t, [](const std::string& s, Rng& r) { H h; const char* p = s.data(); const char* e = p + s.size(); while(p < e) { long long v = 0; int w = 0; auto a = estd::from_chars(p, e, v); h(a.ptr - p); h((int)a.ec); h(v); auto b = estd::from_chars(p, e, w, r.coin() ? 16 : 8); h(b.ptr - p); h((int)b.ec); h(w);
            char out[80]; auto o = estd::to_chars(out, out + sizeof out, v); h(hash_bytes(out, o.ptr - out)); auto q = estd::to_chars(out, out + 3, w); h((int)q.ec); p = a.ptr > p ? a.ptr + 1 : p + 1; } return (uint64_t)h; });
}
VF_GROUP_W(in_streams, 60)     // every reader its own stream over one shared text
{
    std::string t; for(unsigned n = 1 + (unsigned)c.rng.below(8); n > 0; --n) { t += c.rng.coin() ? std::to_string((int)(c.rng.next() >> 33)) : c.rng.coin() ? "true" : "word"; t += c.rng.chance(1, 5) ? "\n" : " "; }
    c.op("%s", t.c_str()); 
    shared(c, "streams over one text", t, [](const std::string& s, Rng& r) { H h; estd::span<const char> sp(s.data(), s.size()); estd::detail::basic_ispanstream<const char> in(sp);
        for(int i = 0; i < 9; ++i) { if(r.coin()) { int v = -1; in >> v; h(v); } else { estd::layer1::string<12> w; in >> w; h(hash_bytes(w.data(), w.size())); } h((int)in.rdstate()); if(in.fail()) in.clear(); }
        estd::layer1::ostringstream<64> out; out << (int)h.v << ' ' << true << " end"; const auto& str = out.rdbuf()->str(); h(hash_bytes(str.data(), str.size())); return (uint64_t)h; });
}
VF_GROUP_W(classic_locale, 40)      // the stateless facets and the classic locale are shared by everybody
{
    const auto loc = estd::locale::classic(); uint64_t salt = c.rng.next();
    shared(c, "classic locale", loc, [salt](decltype((loc)) l, Rng& r) { H h; const auto& ct = estd::use_facet<estd::ctype<char>>(l); const auto& np = estd::use_facet<estd::numpunct<char>>(l);
        for(int i = 0; i < 20; ++i) { char ch = (char)((salt + r.next()) & 0x7f); h(ct.is(estd::ctype_base::space, ch)); h(ct.is(estd::ctype_base::digit, ch)); h(ct.isupper(ch)); h(ct.widen(ch)); h(estd::isspace(ch, l)); } h(np.decimal_point()); h((char)np.truename()[0]); h((char)np.falsename()[1]); return (uint64_t)h; });
}
