#include "d_is.h"
template <class Ch> static std::string text(Ctx& c, size_t max) { return prose<Ch>(c, max, false); }
VF_GROUP_W(fixed_string_stream, 150) { Model<char> m; m.d = text<char>(c, 99); estd::layer1::istringstream<100> in(m.d.c_str()); int base = 10, n = 1 + c.rng.below(40); while(n--) step<0>(c, in, m, base); VF_EV("fixed string"); }
VF_GROUP_W(const_string_stream, 150) { Model<char> m; m.d = text<char>(c, 99); Raw<char> b(m.d.size() + 1); memcpy(b.data(), m.d.c_str(), m.d.size() + 1); estd::layer2::basic_istringstream<const char> in(b.data()); int base = 10, n = 1 + c.rng.below(40); while(n--) step<0>(c, in, m, base); VF_EV("const string"); }
VF_GROUP_W(shared_buffer, 150)
{
    // reading through one stream what another writes
    typedef estd::layer1::stringbuf<200> Sb; estd::detail::basic_ostream<Sb> out; estd::detail::basic_istream<Sb&> in(*out.rdbuf()); Model<char> m; int base = 10, n = 1 + c.rng.below(40);
    while(n--) { if(c.rng.chance(1, 4)) { auto t = text<char>(c, 20); if(m.d.size() + t.size() < 199) { c.op("write %zu more", t.size()); out.write(t.data(), (estd::streamsize)t.size()); m.d += t; VF_EV("written meanwhile"); } } step<0>(c, in, m, base); }
}
// the loops programs write
VF_GROUP_W(loops, 150)
{
    std::string d = text<char>(c, 99); estd::layer1::istringstream<100> in(d.c_str()); c.op("text of %zu", d.size());
    switch(c.rng.below(4))
    {
        case 0: { std::vector<std::string> w, g; std::string cur; for(char ch : d) if(space((unsigned char)ch)) { if(cur.size()) w.push_back(cur); cur.clear(); } else cur += ch; if(cur.size()) w.push_back(cur);
            estd::layer1::string<128> s; while(in >> s) { std::string t; for(size_t i = 0; i < s.size(); ++i) t += s[i]; g.push_back(t); VF_REQ(g.size() <= w.size(), "more words than there are"); }
            VF_REQ(g == w, "%zu words read, %zu expected", g.size(), w.size()); VF_REQ(in.eof() && in.fail(), "loop ended in state %d", in.rdstate()); VF_EV("all words"); break; }
        case 1: { std::string w; for(char ch : d) if(!space((unsigned char)ch)) w += ch; std::string g; char ch; while(in >> ch) { g += ch; VF_REQ(g.size() <= w.size(), "more characters than there are"); } VF_REQ(g == w, "characters read are \"%s\"", esc(g).c_str()); VF_EV("all characters"); break; }
        case 2: { std::string g; for(;;) { char b[100]; in.getline(b, 100); if(in.fail()) break; g += b; if(in.eof()) break; g += '\n'; VF_REQ(g.size() <= d.size(), "more text than there is"); } VF_REQ(g == d, "lines joined are \"%s\", text was \"%s\"", esc(g).c_str(), esc(d).c_str()); VF_EV("all lines"); break; }
        default: { std::string t; std::vector<long> w, g; size_t n = c.rng.below(20); while(n--) { long v = (long)c.rng.below(20000) - 10000; w.push_back(v); std::string a = std::to_string(v); if(t.size() + a.size() + 3 > 99) { w.pop_back(); break; } t += a; size_t k = 1 + c.rng.below(2); while(k--) t += " \n\t"[c.rng.below(3)]; } if(c.rng.coin() && t.size()) while(t.size() && space(t.back())) t.pop_back();
            estd::layer1::istringstream<100> nin(t.c_str()); int v; while(nin >> v) { g.push_back(v); VF_REQ(g.size() <= w.size(), "more numbers than there are"); } VF_REQ(g == w, "%zu numbers read from \"%s\", %zu expected", g.size(), esc(t).c_str(), w.size()); VF_EV("all numbers"); }
    }
    c.nt();
}
