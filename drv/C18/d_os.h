#include "vf.h"
#include "values.h"
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/iomanip.h>
#include <estd/string_view.h>
#include <estd/locale.h>
#include <limits>
#include <string>
using namespace vf;
namespace {
typedef estd::ios_base ib;

// a stream buffer written by a user of the library: captures what is delivered, may refuse from a point on,
// and records when it was synchronised
template <class Ch> struct Tape { std::basic_string<Ch> text; size_t limit = (size_t)-1; size_t synced = 0; unsigned syncs = 0; bool sync_fails = false; size_t refused = 0; };
template <class Ch> struct cap_impl : estd::internal::impl::streambuf_base<estd::char_traits<Ch>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<Ch>> b;
    using typename b::traits_type; using typename b::int_type; typedef Ch char_type;
    Tape<Ch>* t;
    explicit cap_impl(Tape<Ch>* t) : t(t) {}
    int_type sputc(Ch ch) { if(t->text.size() >= t->limit) { ++t->refused; return traits_type::eof(); } t->text.push_back(ch); return traits_type::to_int_type(ch); }
    estd::streamsize xsputn(const Ch* s, estd::streamsize n) { estd::streamsize k = 0; while(k < n && t->text.size() < t->limit) t->text.push_back(s[k++]); if(k < n) ++t->refused; return k; }
    int_type overflow(int_type ch = traits_type::eof()) { return sputc(traits_type::to_char_type(ch)); }
    int sync() { ++t->syncs; t->synced = t->text.size(); return t->sync_fails ? -1 : 0; }
};
template <class Ch> using capbuf = estd::detail::streambuf<cap_impl<Ch>>;
template <class Ch> using capstream = estd::detail::basic_ostream<capbuf<Ch>>;

// traditional virtual buffer
struct vbuf : estd::basic_streambuf<char>
{
    Tape<char> t;
    int_type overflow(int_type ch) override { if(ch == traits_type::eof()) return 0; if(t.text.size() >= t.limit) { ++t.refused; return traits_type::eof(); } t.text.push_back((char)ch); return ch == traits_type::eof() ? 0 : ch; }
    estd::streamsize xsgetn(char*, estd::streamsize) override { return 0; }
    estd::streamsize xsputn(const char* p, estd::streamsize n) override { estd::streamsize k = 0; while(k < n && t.text.size() < t.limit) t.text.push_back(p[k++]); if(k < n) ++t.refused; return k; }
    int sync() override { ++t.syncs; t.synced = t.text.size(); return t.sync_fails ? -1 : 0; }
};

template <class Ch> std::basic_string<Ch> widen(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
template <class Ch> std::string esc(const std::basic_string<Ch>& s) { std::string r; for(Ch ch : s) { char b[12]; if(ch >= 32 && ch < 127) r += (char)ch; else { snprintf(b, sizeof b, "\\x%lx", (unsigned long)(typename std::make_unsigned<Ch>::type)ch); r += b; } } return r; }

template <class T> std::string digits(T v, int base, bool upper)
{
    __int128 x = v; bool neg = x < 0; if(neg) x = -x;
    std::string r; do { int d = (int)(x % base); r += d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; x /= base; } while(x);
    if(neg) r += '-';
    return std::string(r.rbegin(), r.rend());
}

// what the stream's settings call for
struct Model
{
    ib::fmtflags fl = ib::dec | ib::right;
    unsigned width = 0; char fill = ' '; bool nul = false;
    ib::iostate st = ib::goodbit;
    int base() const { auto b = fl & ib::basefield; return b == ib::hex ? 16 : b == ib::oct ? 8 : 10; }
    bool upper() const { return fl & ib::uppercase; }
    std::string padded(const std::string& s)
    {
        std::string r = s;
        if(r.size() < width)
        {
            std::string p(width - r.size(), fill);
            if((fl & ib::adjustfield) == ib::left) { r += p; VF_EV("padded after"); } else { r = p + r; VF_EV("padded before"); }
        }
        else if(width) VF_EV("width already reached");
        width = 0;
        return r;
    }
};

template <class Os> void check_state(Ctx& c, Os& o, const Model& m)
{
    VF_REQ((o.flags() & 0xff) == m.fl, "flags are %02x, the settings made call for %02x", o.flags(), m.fl);
    VF_REQ(o.width() == (estd::streamsize)m.width, "width is %d, expected %u", (int)o.width(), m.width);
    VF_REQ(o.fill() == (typename Os::char_type)m.fill, "fill is %lx, expected %x", (long)o.fill(), m.fill);
    VF_REQ(o.rdstate() == m.st, "state is %x, expected %x", o.rdstate(), m.st);
    VF_REQ(o.good() == (m.st == 0) && o.bad() == bool(m.st & ib::badbit) && o.fail() == bool(m.st & (ib::badbit | ib::failbit)) && o.eof() == bool(m.st & ib::eofbit) && bool(o) == !o.fail(), "state queries disagree with state %x", m.st);
}

template <class T> T any_int(Ctx& c) {
    switch(c.rng.below(5)) { case 0: return std::numeric_limits<T>::max() - (T)c.rng.below(3); case 1: return std::numeric_limits<T>::min() + (T)c.rng.below(3); case 2: return (T)c.rng.below(20); default: return (T)c.rng.edgy(); } }

struct doubler : estd::detail::ostream_functor_tag
{
    int v; explicit doubler(int v) : v(v) {}
    template <class S, class B> void operator()(estd::detail::basic_ostream<S, B>& o) const { o << v << v; }
};

template <class Os, class T> std::string ins_int(Ctx& c, Os& o, Model& m) { T v = any_int<T>(c); c.op("<< %s (%zu bytes)", digits(v, 10, false).c_str(), sizeof v); o << v; VF_EV("integer"); return m.padded(digits(v, m.base(), m.upper())); }

inline std::string rnd_text(Ctx& c, size_t max) { std::string s; size_t n = c.rng.below(max + 1); while(n--) s += (char)(c.rng.chance(1, 8) ? 1 + c.rng.below(255) : 32 + c.rng.below(95)); return s; }

// one random formatting action; returns the characters it must have delivered
template <class Os> std::string act(Ctx& c, Os& o, Model& m, unsigned maxw)
{
    typedef typename Os::char_type Ch;
    switch(c.rng.below(30))
    {
        case 0: return ins_int<Os, short>(c, o, m);
        case 1: return ins_int<Os, unsigned short>(c, o, m);
        case 2: return ins_int<Os, int>(c, o, m);
        case 3: return ins_int<Os, unsigned>(c, o, m);
        case 4: return ins_int<Os, long>(c, o, m);
        case 5: return ins_int<Os, unsigned long>(c, o, m);
        case 6: return ins_int<Os, long long>(c, o, m);
        case 7: return ins_int<Os, unsigned long long>(c, o, m);
        case 8: return ins_int<Os, signed char>(c, o, m);
        case 9: return ins_int<Os, unsigned char>(c, o, m);
        case 10: { Ch ch = (Ch)(1 + c.rng.below(126)); c.op("<< char %x", (unsigned)ch); o << ch; VF_EV("character"); return m.padded(std::string(1, (char)ch)); }
        case 11: { std::string s = rnd_text(c, 12); for(char& ch : s) ch &= 0x7f, ch = ch ? ch : 'z'; auto w = widen<Ch>(s); Raw<Ch> box(w.size() + 1); for(size_t i = 0; i < w.size(); ++i) box[i] = w[i]; box[w.size()] = 0; c.op("<< \"%s\"", esc(s).c_str()); o << (const Ch*)box.data(); VF_EV("text"); return m.padded(s); }
        case 12: { unsigned w = c.rng.below(maxw + 1); c.op("setw(%u)", w); o << estd::setw(w); m.width = w; return ""; }
        case 13: { char f = (char)(0x20 + c.rng.below(0x40)); c.op("setfill(%c)", f); o << estd::setfill((Ch)f); m.fill = f; VF_EV("fill"); return ""; }
        case 14: { char f = (char)(0x20 + c.rng.below(0x40)); c.op("fill(%c)", f); Ch old = o.fill((Ch)f); VF_REQ(old == (Ch)m.fill, "fill() returned %x as the previous fill, it was %x", (unsigned)old, m.fill); m.fill = f; return ""; }
        case 15: { unsigned w = c.rng.below(maxw + 1); c.op("width(%u)", w); auto old = o.width(w); VF_REQ(old == (int)m.width, "width() returned %d as the previous width, it was %u", (int)old, m.width); m.width = w; return ""; }
        case 16: c.op("hex"); o << estd::hex; m.fl = (m.fl & ~ib::basefield) | ib::hex; VF_EV("base changed"); return "";
        case 17: c.op("dec"); o << estd::dec; m.fl = (m.fl & ~ib::basefield) | ib::dec; return "";
        case 18: c.op("oct"); o << estd::oct; m.fl = (m.fl & ~ib::basefield) | ib::oct; return "";
        case 19: { static const int bs[] = {8, 10, 16, 0, 7}; int b = c.rng.pick(bs); c.op("setbase(%d)", b); o << estd::setbase(b); m.fl = (m.fl & ~ib::basefield) | (b == 8 ? ib::oct : b == 10 ? ib::dec : b == 16 ? ib::hex : 0); return ""; }
        case 20: { bool up = c.rng.coin(); c.op("uppercase %d", up); auto old = up ? o.setf(ib::uppercase) : o.unsetf(ib::uppercase); VF_REQ(old == m.fl, "setf/unsetf returned %x, flags were %x", old, m.fl); m.fl = up ? m.fl | ib::uppercase : m.fl & ~ib::uppercase; return ""; }
        case 21: { static const ib::fmtflags as[] = {ib::left, ib::right, 0, ib::adjustfield}; auto a = c.rng.pick(as); c.op("adjustment %x", a); auto old = o.setf(a, ib::adjustfield); VF_REQ(old == m.fl, "setf returned %x, flags were %x", old, m.fl); m.fl = (m.fl & ~ib::adjustfield) | a; return ""; }
        case 22: { ib::fmtflags f = (ib::fmtflags)c.rng.below(256) & ~(ib::unitbuf); c.op("flags(%x)", f); auto old = o.flags(f); VF_REQ(old == m.fl, "flags() returned %x, flags were %x", old, m.fl); m.fl = f; return ""; }
        case 23: { c.op("endl"); o << estd::endl; VF_EV("endl"); return "\n"; }
        case 24: { Ch ch = (Ch)(1 + c.rng.below(126)); c.op("put %x", (unsigned)ch); o.put(ch); return std::string(1, (char)ch); }
        case 25: { std::string s = rnd_text(c, 20); for(char& ch : s) { ch &= 0x7f; if(!m.nul && !ch) ch = 'z'; } auto w = widen<Ch>(s); Raw<Ch> box(w.size()); for(size_t i = 0; i < w.size(); ++i) box[i] = w[i]; c.op("write \"%s\"", esc(s).c_str()); o.write(box.data(), (int)w.size()); VF_EV("write"); return s; }
        case 26: { int v = (int)c.rng.range(-1000, 1000); c.op("functor manipulator %d", v); o << doubler(v); VF_EV("functor"); std::string r = m.padded(digits(v, m.base(), m.upper())); return r + m.padded(digits(v, m.base(), m.upper())); }
        case 27: { c.op("ostream_iterator"); estd::experimental::ostream_iterator<int, Os> it(o); std::string r; for(int i = c.rng.below(4); i >= 0; --i) { int v = (int)c.rng.range(-99, 99); *it++ = v; r += m.padded(digits(v, m.base(), m.upper())); } VF_EV("ostream iterator"); return r; }
        case 28: { bool v = c.rng.coin(); c.op("<< bool %d", v); if(c.rng.coin()) { bool al = c.rng.coin(); if(al) o.setf(ib::boolalpha); else o.unsetf(ib::boolalpha); m.fl = al ? m.fl | ib::boolalpha : m.fl & ~ib::boolalpha; }
            o << v; if(m.fl & ib::boolalpha) { VF_EV("bool name"); return m.padded(v ? "true" : "false"); } VF_EV("bool digit"); return m.padded(v ? "1" : "0"); }
        default: { c.op("flush"); o.flush(); VF_EV("flush"); return ""; }
    }
}

template <class Os> std::string act_strings(Ctx& c, Os& o, Model& m)
{
    std::string s; size_t n = c.rng.below(12); while(n--) s += (char)(33 + c.rng.below(90));
    Raw<char> box(s.size() + 1); memcpy(box.data(), s.c_str(), s.size() + 1);
    switch(c.rng.below(5))
    {
        case 0: { c.op("<< layer1::string %s", s.c_str()); estd::layer1::string<20> q(box.data()); o << q; break; }
        case 1: { c.op("<< layer1::string no null %s", s.c_str()); estd::layer1::string<20, false> q(box.data()); o << q; break; }
        case 2: { c.op("<< layer2::const_string %s", s.c_str()); estd::layer2::const_string q(box.data()); o << q; break; }
        case 3: { c.op("<< string_view %s", s.c_str()); Raw<char> e(s.size()); memcpy(e.data(), s.data(), s.size()); estd::string_view q(e.data(), s.size()); o << q; break; }
        default: { c.op("<< layer3::const_string %s", s.c_str()); Raw<char> e(s.size()); memcpy(e.data(), s.data(), s.size()); estd::layer3::const_string q(e.data(), s.size()); o << q; break; }
    }
    VF_EV("string object");
    return m.padded(s);
}
}
