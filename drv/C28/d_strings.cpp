// strings, views, spans, streams and number conversions over inline or supplied storage
#include "d_quiet.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/iomanip.h>
#include <estd/charconv.h>
#include <estd/locale.h>
#include <estd/chrono.h>
#include <estd/optional.h>
#include "estd/ostream.h"
namespace {
struct Text { char b[64]; unsigned n; explicit Text(Rng& r, unsigned max) : n((unsigned)r.below(max + 1)) { for(unsigned i = 0; i < n; ++i) b[i] = r.chance(1, 6) ? ' ' : (char)('a' + r.below(5)); b[n] = 0; } };
// random edits that stay within max; no harness allocation happens in here
template <class S> void edit(S& s, Rng& r, unsigned max)
{
    for(unsigned k = 1 + (unsigned)r.below(8); k > 0; --k)
    {
        unsigned n = (unsigned)s.size(), room = max - n; Text t(r, room < 12 ? room : 12); estd::string_view v(t.b, t.n); typedef typename S::size_type Z;
        switch(r.below(9))
        {
            case 0: s += t.b; break;
            case 1: if(room) s += 'z'; break;
            case 2: if(t.n) s.append(t.b, (Z)t.n); break;
            case 3: if(n) s.erase((Z)r.below(n), (Z)(1 + r.below(3))); break;
            case 4: if(n) { s[(Z)r.below(n)] = 'q'; } break;
            case 5: s = v; break;
            case 6: s.resize((Z)r.below(max + 1)); for(unsigned i = 0; i < s.size(); ++i) if(i >= n) s[(Z)i] = (char)('A' + i % 20); break;
            case 7: if(r.chance(1, 3)) s.clear(); break;
            default: if(t.n) s += v; break;
        }
    }
}
template <class S> uint64_t dig(const S& s) { H h; h(s.size()); for(unsigned i = 0; i < s.size(); ++i) h((char)s[i]); return h.v; }
template <class S> void queries(Ctx& c, const S& s)
{
    typedef typename S::size_type Z; Text t(c.rng, 3); estd::string_view v(t.b, t.n); char out[70]; volatile uint64_t sink = 0;
    QUIET("string queries", { H h; h(s.find(t.b)); h(s.find(v)); h(s.rfind(t.b)); h(s.find('a')); h(s.find_first_of(t.b)); h(s.find_last_of(t.b)); h(s.compare(t.b)); h(s.compare(v)); h(s == v); h(s == t.b); h(s.starts_with(v)); h(s.ends_with(v)); for(auto it = s.begin(); it != s.end(); ++it) h((char)*it); if(s.size()) { h(s.copy(out, 60)); h((char)s.back()); h((char)s.front()); } h(s == s);
        estd::layer1::string<70> mine(s); mine += "tail"; h(mine.size()); h(mine == s); sink = h.v; });
}
template <class S> void work(Ctx& c, const char* what, S& s, unsigned max) { c.op("%s", what); for(int i = 0; i < 6; ++i) { uint64_t seed = c.rng.next(); Rng r(seed); QUIET(what, edit(s, r, max)); queries(c, s); c.mark(dig(s)); } VF_EV(what); c.nt(); }
}
VF_GROUP_W(string_layer1, 60) { { Boxed<estd::layer1::string<40>> s; work(c, "null terminated fixed string", *s, 39); } { Boxed<estd::layer1::string<40, false>> s; work(c, "counted fixed string", *s, 40); } }
VF_GROUP_W(string_outside, 60) { { Raw<char> b(30); estd::layer2::string<30> s((char*)b.data(), 0); work(c, "string over a buffer", s, 29); } { Raw<char> b(33); estd::layer3::basic_string<char, true> s((char*)b.data(), 0, (unsigned short)33); work(c, "string over a sized buffer", s, 32); } { Raw<char> b(33); estd::layer3::basic_string<char, false> s((char*)b.data(), 0, (unsigned short)33); work(c, "counted string over a sized buffer", s, 33); } }
VF_GROUP_W(string_copies, 60)
{
    typedef estd::layer1::string<24> A; independent<A>(c, "null terminated fixed string copied", [](A& s, Rng& r) { edit(s, r, 23); }, [](const A& s) { return dig(s); });
    typedef estd::layer1::string<24, false> B; independent<B>(c, "counted fixed string copied", [](B& s, Rng& r) { edit(s, r, 24); }, [](const B& s) { return dig(s); });
    typedef estd::layer1::string<300, false> L; independent<L>(c, "long fixed string copied", [](L& s, Rng& r) { edit(s, r, 60); }, [](const L& s) { return dig(s); });
}
VF_GROUP_W(numbers, 60)
{
    long long v = (long long)(c.rng.edgy() >> c.rng.below(64)); if(c.rng.coin()) v = -v; unsigned base = 2 + (unsigned)c.rng.below(35); char b[90]; volatile uint64_t sink = 0; c.op("%lld in base %u", v, base); c.nt();
    QUIET("to_chars and from_chars", { H h; auto r = estd::to_chars(b, b + 80, v, (int)base); long long w = 0; auto q = estd::from_chars(b, r.ptr, w, (int)base); h(w); h(q.ptr - b); short t = 0; estd::from_chars(b, r.ptr, t, (int)base); h(t); unsigned char u = 0; estd::from_chars(b, r.ptr, u, (int)base); h(u); estd::to_chars(b, b + 2, v); sink = h.v; });
    int i = (int)v; QUIET("stol and to_string", { estd::layer1::string<32> s; s = "123456"; H h; h(estd::stoi(s)); h(estd::stol(s)); auto t = estd::to_string(i); h(t.size()); h((char)t.back()); auto l = estd::to_string((long)i); h(l.size()); sink = h.v; });
    VF_EV("numbers converted");
}
namespace { template <class O> void write_all(O& o, int v, unsigned w) { o << "v=" << v << ' ' << estd::hex << (unsigned)v << estd::dec << estd::setw((int)w) << estd::setfill('*') << v << true << 'c' << (const char*)"txt" << estd::string_view("view", 4) << (long)v << (unsigned short)v << estd::endl; estd::layer1::string<8> s; s = "str"; o << s; o.put('!'); o.write("raw", 3); o.setf(estd::ios_base::boolalpha); o << false; o.flush(); o.tellp(); } 
template <class I> uint64_t read_all(I& in, Rng& r) { H h; for(int k = 0; k < 12; ++k) { switch(r.below(9)) { case 0: { int v = -1; in >> v; h(v); break; } case 1: { estd::layer1::string<16> w; in >> w; h(w.size()); break; } case 2: { char ch = 0; in >> ch; h(ch); break; } case 3: { char b[20]; in.getline(b, 20); break; } case 4: h(in.peek()); break; case 5: h(in.get()); break; case 6: { char b[5]; in.read(b, 5); h(in.gcount()); break; } case 7: in.ignore(3); break; default: { bool v = false; in >> v; h(v); } } h((int)in.rdstate()); if(!in.good() && r.coin()) in.clear(); } return h.v; } }
VF_GROUP_W(out_streams, 80)
{
    int v = (int)c.rng.edgy(); unsigned w = (unsigned)c.rng.below(14); c.op("value %d width %u", v, w); c.nt();
    { Boxed<estd::layer1::ostringstream<256>> o; QUIET("fixed string output stream", write_all(*o, v, w)); c.mark(dig(o->rdbuf()->str())); VF_REQ(o->good() && o->rdbuf()->str().size() > 20, "stream state"); }
    { Boxed<estd::layer1::ostringstream<12>> o; QUIET("full output stream", write_all(*o, v, w)); VF_EV("output refused"); }
    { Raw<char> b(256); estd::span<char> sp(b.data(), 256); QUIET("span output stream", { estd::detail::ospanstream o(sp); write_all(o, v, w); }); }
    { Boxed<estd::layer1::stringstream<256>> o; uint64_t s = c.rng.next(); volatile uint64_t sink; QUIET("fixed string stream both ways", { write_all(*o, v, w); Rng r(s); sink = read_all(*o, r); }); }
    VF_EV("output formatted");
}
VF_GROUP_W(in_streams, 80)
{
    std::string t; for(unsigned n = 1 + (unsigned)c.rng.below(10); n > 0; --n) { t += c.rng.coin() ? std::to_string((int)c.rng.edgy()) : c.rng.coin() ? "true" : "word"; t += c.rng.chance(1, 4) ? "\n" : " "; } if(t.size() > 99) t.resize(99); c.op("\"%s\"", t.c_str()); c.nt();
    uint64_t s = c.rng.next(); uint64_t a = 0, b = 0; { Raw<char> box(t.size() + 1); memcpy(box.data(), t.c_str(), t.size() + 1); const char* p = box.data();
        QUIET("span input stream", { estd::span<const char> sp(p, t.size()); estd::detail::basic_ispanstream<const char> in(sp); Rng r(s); a = read_all(in, r); });
        QUIET("fixed string input stream", { estd::layer1::istringstream<100> in(p); Rng r(s); b = read_all(in, r); }); }
    VF_REQ(a == b, "the two streams read different things"); c.mark(a); VF_EV("input parsed");
}
VF_GROUP_W(facets, 40)
{
    long v = (long)c.rng.edgy(); char b[80]; char fill = '*'; volatile uint64_t sink; c.op("%ld", v); c.nt();
    QUIET("locale facets", { H h; estd::layer1::ostringstream<80> ios; estd::locale::classic_type l; char* e = estd::num_put<char, char*>::put(b, ios, fill, v); h(e - b); auto ng = estd::use_facet<estd::num_get<char, const char*>>(l); estd::ios_base::iostate err = estd::ios_base::goodbit; long w = 0; const char* q = ng.get((const char*)b, (const char*)e, estd::ios_base::dec, err, w); h(q - b); h(w); auto ct = estd::use_facet<estd::ctype<char>>(l); h(ct.is(estd::ctype_base::digit, b[0])); sink = h.v; });
    VF_EV("facets");
}
VF_GROUP_W(spans, 30)
{
    Raw<int> a(20); for(int i = 0; i < 20; ++i) a[i] = (int)c.rng.below(100); unsigned o = (unsigned)c.rng.below(10), n = (unsigned)c.rng.below(10); uint64_t d = 0; c.nt();
    QUIET("spans", { estd::span<int> s(a.data(), 20); auto x = s.subspan(o, n); estd::span<int> y(x); y = s; H h; for(int i : x) h(i); h(y.size()); h(y[o]); d = h.v; estd::string_view v("abcdef", 6); estd::string_view w = v; w.remove_prefix(2); h(w.size()); h(w == v); }); c.mark(d);
}
