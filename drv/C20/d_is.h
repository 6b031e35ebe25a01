#include "../C19/d_sb.h"
#include <estd/iomanip.h>
#include <estd/string.h>
#include <estd/string_view.h>
namespace {
typedef ib::iostate iostate;
static const iostate goodb = 0, badb = ib::badbit, failb = ib::failbit, eofb = ib::eofbit, nodatab = ib::nodatabit;
inline bool space(long ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
inline int digit(long ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99; }
// text with words, numbers and line ends, and some of everything else
template <class Ch> std::basic_string<Ch> prose(Ctx& c, size_t max, bool nul)
{
    std::basic_string<Ch> s; size_t n = c.rng.below(max + 1);
    while(s.size() < n)
        switch(c.rng.below(9))
        {
            case 0: case 1: { static const char w[] = "   \t\n\n\r\v\f"; size_t k = 1 + c.rng.below(3); while(k--) s += (Ch)w[c.rng.below(sizeof w - 1)]; break; }
            case 2: s += (Ch)'\n'; break;
            case 3: s += any_char<Ch>(c, nul); break;
            case 4: case 5: { if(c.rng.chance(1, 4)) s += (Ch)'-'; size_t k = 1 + c.rng.below(c.rng.chance(1, 5) ? 22 : 5); while(k--) s += (Ch)("0123456789abcdefABCDEF"[c.rng.below(c.rng.chance(1, 5) ? 22 : 10)]); break; }
            default: { size_t k = 1 + c.rng.below(n > 300 && c.rng.chance(1, 6) ? 300 : 7); while(k--) s += (Ch)(33 + c.rng.below(94)); }
        }
    s.resize(n); return s;
}
template <class Ch> struct Model
{
    std::basic_string<Ch> d; size_t pos = 0; iostate st = goodb; long gc = 0;
    bool end() const { return pos >= d.size(); }
    long at(size_t i) const { return i < d.size() ? (long)(typename std::char_traits<Ch>::int_type)std::char_traits<Ch>::to_int_type(d[i]) : (long)(typename std::char_traits<Ch>::int_type)-1; }
    // white space is skipped by peeking, which offers nothing on a stream that is not good
    void skip() { if(st == goodb) while(!end() && space(at(pos))) ++pos; }
};
struct Num { __int128 v; iostate err; size_t used; };
template <class T, class Ch> Num number(const std::basic_string<Ch>& s, size_t from, int base)
{
    Num r{0, goodb, 0}; size_t i = from; bool neg = false; if(std::is_signed<T>::value && i < s.size() && s[i] == (Ch)'-') { neg = true; ++i; }
    size_t d0 = i; bool over = false; __int128 v = 0;
    for(; i < s.size() && digit((long)(typename std::make_unsigned<Ch>::type)s[i]) < base; ++i)
        if(!over) { v = v * base + digit(s[i]); __int128 sv = neg ? -v : v; if(sv > (__int128)std::numeric_limits<T>::max() || sv < (__int128)std::numeric_limits<T>::min()) over = true; }
    r.used = i; if(i == s.size()) r.err |= eofb;
    if(i == d0) r.err |= failb; else if(over) { r.err |= failb; r.v = neg ? (__int128)std::numeric_limits<T>::min() : (__int128)std::numeric_limits<T>::max(); } else r.v = neg ? -v : v;
    return r;
}
enum { NONUM = 1, NOSEEK = 2, NOSTR = 4, APPENDS = 8 };
template <class T, class In, class Ch> void extract(Ctx& c, In& in, Model<Ch>& m, int base)
{
    T v = (T)77; m.skip(); Num e = number<T>(m.d, m.pos, base); c.op(">> %zu byte %s number base %d at %zu", sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", base, m.pos);
    in >> v; VF_REQ(v == (T)e.v, "number at %zu is %lld, expected %lld", m.pos, (long long)v, (long long)e.v); m.pos = e.used; m.st |= e.err; VF_EV(e.err & failb ? "number refused" : "number");
}
template <unsigned caps, class Ch, class In> void step(Ctx& c, In& in, Model<Ch>& m, int& base)
{
    typedef typename In::traits_type tr; typedef typename tr::int_type it; const size_t left = m.d.size() - m.pos;
    auto lim = [&](size_t n) { return n < left ? n : left; };
    // the end may have been reached before: only what clears that state is asked for
    switch(m.st == goodb ? c.rng.below(17) : (caps & NOSEEK) || c.rng.coin() ? 2 : 11)
    {
        case 0: { c.op("peek at %zu", m.pos); it r = in.peek(); VF_REQ((long)r == m.at(m.pos), "peek at %zu is %ld, expected %ld", m.pos, (long)r, m.at(m.pos)); m.gc = 0; VF_EV("peek"); break; }
        case 1: { c.op("get at %zu", m.pos); it r = in.get(); VF_REQ((long)r == m.at(m.pos), "get at %zu is %ld, expected %ld", m.pos, (long)r, m.at(m.pos)); if(left) { ++m.pos; m.gc = 1; } else { m.gc = 0; m.st |= failb | eofb; } VF_EV("get"); break; }
        case 2: { if(!m.pos && m.st == goodb && c.rng.coin()) break; if(m.st) VF_EV("unget at the end"); c.op("unget at %zu", m.pos); in.unget(); m.gc = 0; m.st &= ~eofb; if(m.pos) --m.pos; else m.st |= badb; VF_EV("unget"); break; }
        case 3: case 4: { size_t n = c.rng.chance(1, 5) ? left + c.rng.below(5) : c.rng.below(c.rng.chance(1, 6) ? 600 : 10), w = lim(n); Raw<Ch> b(n); c.op("read(%zu) at %zu", n, m.pos); in.read(b.data(), (estd::streamsize)n); VF_REQ(std::basic_string<Ch>(b.data(), w) == m.d.substr(m.pos, w), "read(%zu) at %zu gave \"%s\"", n, m.pos, esc(std::basic_string<Ch>(b.data(), w)).c_str()); m.pos += w; m.gc = w; if(w < n) { m.st |= failb | eofb; VF_EV("short read"); } VF_EV("read"); break; }
        case 5: { size_t n = c.rng.below(c.rng.chance(1, 5) ? 700 : 10), w = lim(n); Raw<Ch> b(n); c.op("readsome(%zu) at %zu", n, m.pos); auto r = in.readsome(b.data(), (estd::streamsize)n); VF_REQ((size_t)r == w && std::basic_string<Ch>(b.data(), w) == m.d.substr(m.pos, w), "readsome(%zu) at %zu of %zu returned %ld", n, m.pos, m.d.size(), (long)r); m.pos += w; m.gc = w; if(!left) m.st |= eofb; VF_EV("readsome"); break; }
        case 6: case 7: case 8:
        {
            size_t n = c.rng.chance(1, 4) ? c.rng.below(4) : c.rng.below(c.rng.chance(1, 4) ? 400 : 30); Ch delim = c.rng.coin() ? (Ch)'\n' : left ? m.d[m.pos + c.rng.below(left)] : any_char<Ch>(c, true); Raw<Ch> b(n);
            c.op("getline(%zu, delim %lx) at %zu", n, (long)delim, m.pos); in.getline(b.data(), (estd::streamsize)n, delim);
            std::basic_string<Ch> line; m.gc = 0;
            for(;;)
            {
                if(m.end()) { m.st |= eofb; if(!m.gc) m.st |= failb; VF_EV("line cut by the end"); break; }
                if(m.d[m.pos] == delim) { ++m.pos; ++m.gc; VF_EV("delimiter"); break; }
                if(line.size() + 1 >= n) { m.st |= failb; VF_EV("line too long"); break; }
                line += m.d[m.pos++]; ++m.gc;
            }
            if(n) { VF_REQ(std::basic_string<Ch>(b.data(), line.size()) == line && b[line.size()] == 0, "line is \"%s\", expected \"%s\"", esc(std::basic_string<Ch>(b.data(), line.size() + 1)).c_str(), esc(line).c_str()); for(size_t i = line.size() + 1; i < n; ++i) VF_REQ(((unsigned char*)(b.data() + i))[0] == 0xA5, "stored beyond the terminator"); }
            VF_EV("line"); break;
        }
        case 9: { size_t n = c.rng.below(c.rng.chance(1, 6) ? 600 : 10); c.op("ignore(%zu) at %zu", n, m.pos); if(n == 1) in.ignore(); else in.ignore((estd::streamsize)n); size_t w = lim(n); m.pos += w; m.gc = w; if(w < n) m.st |= eofb; VF_EV("ignore"); break; }
        case 10: { size_t n = c.rng.chance(1, 5) ? 0x7fffffff : c.rng.below(30); Ch delim = left && c.rng.coin() ? m.d[m.pos + c.rng.below(left)] : (Ch)'\n'; c.op("ignore(%zu, %lx) at %zu", n, (long)delim, m.pos); in.ignore((estd::streamsize)n, tr::to_int_type(delim)); m.gc = 0; while((size_t)m.gc < n) { if(m.end()) { m.st |= eofb; break; } ++m.gc; if(m.d[m.pos++] == delim) { VF_EV("ignored through the delimiter"); break; } } break; }
        case 11: if constexpr(!(caps & NOSEEK))
        {
            long to = c.rng.chance(1, 6) ? (c.rng.coin() ? -1 - (long)c.rng.below(4) : (long)m.d.size() + 1 + (long)c.rng.below(4)) : (long)c.rng.below(m.d.size() + 1);
            switch(c.rng.below(3)) { case 0: c.op("seekg(%ld, beg)", to); in.seekg(to, ib::beg); break; case 1: c.op("seekg(%ld, cur)", to - (long)m.pos); in.seekg(to - (long)m.pos, ib::cur); break; default: c.op("seekg(%ld, end)", to - (long)m.d.size()); in.seekg(to - (long)m.d.size(), ib::end); }
            m.st &= ~(failb | eofb); if(to < 0 || to > (long)m.d.size()) { m.st |= failb; VF_EV("seek refused"); } else { m.pos = to; VF_EV("seek"); }
        } break;
        case 12: { c.op(">> ws at %zu", m.pos); size_t p = m.pos; in >> estd::ws; m.skip(); m.gc = -1; if(p != m.pos) VF_EV("white space"); break; }
        case 13: if constexpr(sizeof(Ch) == 1) { char v = 77; c.op(">> char at %zu", m.pos); in >> v; m.skip(); m.gc = -1; if(m.end()) { VF_REQ(v == 77, "no character, but the value changed"); m.st |= failb | eofb; } else { VF_REQ(v == m.d[m.pos], "character at %zu is %d, expected %d", m.pos, v, m.d[m.pos]); ++m.pos; } VF_EV("character"); } break;
        case 14: if constexpr(!(caps & NONUM))
        {
            m.gc = -1; switch(c.rng.below(7)) { case 0: extract<short>(c, in, m, base); break; case 1: extract<unsigned short>(c, in, m, base); break; case 2: extract<int>(c, in, m, base); break; case 3: extract<unsigned>(c, in, m, base); break; case 4: extract<long>(c, in, m, base); break; case 5: extract<unsigned long long>(c, in, m, base); break; default: extract<long long>(c, in, m, base); }
        } break;
        case 15: if constexpr(!(caps & NOSTR))
        {
            m.skip(); size_t n = 0, cap; m.gc = -1; bool small = c.rng.coin(), plain = m.d.find((Ch)0) != m.d.npos || c.rng.coin(); estd::layer1::string<8> s8; s8 = "junk"; estd::layer1::string<64> s64; s64 = "other junk"; estd::layer1::string<7, false> p8; p8 = "junk"; estd::layer1::string<63, false> p64; p64 = "other junk"; cap = small ? 7 : 63; // a terminated string cannot hold NUL c.op(">> string<%zu> at %zu", cap + 1, m.pos);
            std::string w; while(!m.end() && m.st == goodb && !space(m.at(m.pos)) && n < cap) { w += (char)m.d[m.pos++]; ++n; } 
            bool full = n == cap && !m.end() && !space(m.at(m.pos)); if(full) VF_EV("string full");
            if(m.end() || m.st != goodb) { m.st |= eofb; if(w.empty()) m.st |= failb; }
            std::string got; auto run = [&](auto& s) { in >> s; for(size_t i = 0; i < s.size(); ++i) got += s[i]; };
            if(plain) { if(small) run(p8); else run(p64); } else if(small) run(s8); else run(s64);
            VF_REQ(got == w, "string is \"%s\", expected \"%s\"", esc(got).c_str(), esc(w).c_str()); VF_EV("string");
        } break;
        default: if constexpr(!(caps & NONUM)) { if(c.rng.coin()) { in >> estd::hex; base = 16; } else { in >> estd::dec; base = 10; } c.op("base %d", base); break; }
    }
    VF_REQ(in.rdstate() == m.st && in.good() == (m.st == 0) && in.eof() == !!(m.st & eofb) && in.fail() == !!(m.st & (failb | badb)) && in.bad() == !!(m.st & badb) && (bool)in == !(m.st & (failb | badb)), "state is %d, expected %d", (int)in.rdstate(), (int)m.st);
#if FEATURE_ESTD_IOS_GCOUNT
    if(m.gc >= 0) VF_REQ(in.gcount() == m.gc, "gcount is %ld, expected %ld", (long)in.gcount(), m.gc);
#endif
    VF_REQ((long)in.rdbuf()->sgetc() == m.at(m.pos), "the next character is %ld, expected %ld (position %zu of %zu)", (long)in.rdbuf()->sgetc(), m.at(m.pos), m.pos, m.d.size());
    if(m.st != goodb) { VF_EV("not good"); if(m.st != eofb || c.rng.coin()) { in.clear(); m.st = goodb; } }
    c.nt(); c.state(m.d.size() * 1000 + m.pos);
}
}
