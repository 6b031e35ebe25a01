#include "d_is.h"
#include <estd/iostream.h>
#include <estd/iterator.h>
VF_GROUP_W(string_stream, 150)
{
    // one stream for both directions: what was inserted comes back out
    estd::layer1::stringstream<200> io; Model<char> m; int n = 1 + c.rng.below(30);
    while(n--)
    {
        if(m.d.size() < 170 && c.rng.coin()) { if(c.rng.coin()) { int v = (int)c.rng.edgy(); if(v == std::numeric_limits<int>::min()) v = 1; c.op("<< %d", v); io << v << ' '; m.d += std::to_string(v) + " "; } else { auto t = prose<char>(c, 12, false); c.op("<< %zu characters", t.size()); io << t.c_str(); m.d += t; } VF_EV("inserted"); VF_REQ(io.good(), "state %d after an insertion", io.rdstate()); }
        else { int v = 77; m.skip(); Num e = number<int>(m.d, m.pos, 10); c.op(">> int at %zu of %zu", m.pos, m.d.size()); io >> v; VF_REQ(v == (int)e.v && io.rdstate() == e.err, "number at %zu is %d, expected %d (state %d)", m.pos, v, (int)e.v, io.rdstate()); m.pos = e.used; io.clear();
            if(e.err & failb && !m.end()) { int ch = io.get(); VF_REQ(ch == m.at(m.pos), "get is %d", ch); ++m.pos; } VF_EV("taken"); }
        c.nt(); c.state(m.d.size() * 1000 + m.pos);
    }
}
VF_GROUP_W(iterators, 100)
{
    std::string d = prose<char>(c, 60, true), g; Raw<char> box(d.size()); memcpy(box.data(), d.data(), d.size()); estd::span<char> sp(box.data(), d.size()); estd::detail::ispanstream in(sp); typedef estd::istreambuf_iterator<estd::detail::ispanbuf> It;
    It it(*in.rdbuf()), end; size_t stop = c.rng.below(d.size() + 1); bool post = c.rng.coin();
    while(!it.equal(end) && g.size() < stop) { VF_REQ(g.size() < d.size(), "the iterator went past the end"); VF_REQ((int)*it == (unsigned char)d[g.size()], "iterator shows %d at %zu", (int)*it, g.size()); if(post) g += *it++; else { g += (char)*it; ++it; } c.op("advanced"); }
    VF_REQ(g == d.substr(0, stop), "iterated \"%s\", expected \"%s\"", esc(g).c_str(), esc(d.substr(0, stop)).c_str()); VF_REQ(it.equal(end) == (stop == d.size()), "end compares wrongly after %zu of %zu", stop, d.size());
    int nx = in.peek(); VF_REQ(nx == (stop < d.size() ? (unsigned char)d[stop] : -1), "stream continues at %d", nx); VF_EV("iterated"); c.nt();
}
VF_GROUP_W(iterator_laws, 100)
{
    // any two iterators are equal exactly when both or neither are at the end; a++ shows the character before
    typedef estd::istreambuf_iterator<estd::detail::ispanbuf> It; std::string d[2]; size_t pos[2] = {0, 0}; Raw<char> b0((d[0] = prose<char>(c, 12, true)).size()), b1((d[1] = prose<char>(c, 12, true)).size()); memcpy(b0.data(), d[0].data(), d[0].size()); memcpy(b1.data(), d[1].data(), d[1].size());
    estd::span<char> s0(b0.data(), d[0].size()), s1(b1.data(), d[1].size()); estd::detail::ispanstream i0(s0), i1(s1); It it[2] = { c.rng.coin() ? It(i0) : It(i0.rdbuf()), It(*i1.rdbuf()) }, end; const It cend;
    VF_REQ(end.equal(cend), "two end iterators differ");
    for(int n = 1 + c.rng.below(20); n--;)
    {
        int k = c.rng.below(2); bool fin = pos[k] == d[k].size(); c.op("iterator %d at %zu of %zu", k, pos[k], d[k].size());
        auto cmp = [&] { bool e0 = pos[0] == d[0].size(), e1 = pos[1] == d[1].size(); VF_REQ(it[0].equal(it[1]) == (e0 == e1) && it[1].equal(it[0]) == (e0 == e1), "iterators at %zu/%zu and %zu/%zu compare wrongly", pos[0], d[0].size(), pos[1], d[1].size()); VF_REQ(it[0].equal(end) == e0 && end.equal(it[0]) == e0 && it[1].equal(cend) == e1, "comparison with the end is wrong"); VF_EV("iterators compared"); };
        cmp();
        switch(c.rng.below(4))
        {
            case 0: { It& r = ++it[k]; VF_REQ(&r == &it[k], "++ returned another iterator"); if(!fin) ++pos[k]; break; }
            case 1: { auto p = it[k]++; VF_REQ(p.equal(end) == fin && p.equal(cend) == fin && it[k].equal(it[k]), "the iterator before is wrongly at the end (%d)", fin); if(!fin) { VF_REQ(*p == d[k][pos[k]], "a++ showed %d at %zu", (int)*p, pos[k]); ++pos[k]; VF_REQ(it[1 - k].equal(p) == (pos[1 - k] != d[1 - k].size()), "comparison with the iterator before is wrong"); } VF_EV("post-increment"); break; }
            case 2: { auto p = it[k]++; if(!fin) ++pos[k]; bool f2 = pos[k] == d[k].size(); auto q = p++; VF_REQ(q.equal(end) == f2, "second a++ wrongly at the end"); if(!f2) { VF_REQ(*q == d[k][pos[k]], "second a++ showed %d at %zu", (int)*q, pos[k]); ++pos[k]; } break; }
            default: { auto p = it[k]++; if(!fin) ++pos[k]; It q = ++p; if(pos[k] != d[k].size()) ++pos[k]; VF_REQ(q.equal(end) == (pos[k] == d[k].size()), "++a++ wrongly at the end"); break; }
        }
        cmp(); if(pos[k] != d[k].size()) VF_REQ((int)*it[k] == (unsigned char)d[k][pos[k]], "shows %d at %zu", (int)*it[k], pos[k]); c.nt(); c.state(pos[0] * 100 + pos[1]);
    }
}
VF_GROUP_W(c_stream, 100)
{
    Model<char> m; m.d = prose<char>(c, 80, true); if(m.d.empty()) m.d = "x"; FILE* f = fmemopen((void*)m.d.data(), m.d.size(), "r"); struct Cl { FILE* f; ~Cl() { fclose(f); } } cl{f};
    estd::istream in(*f); int n = 1 + c.rng.below(20);
    while(n--)
    {
        size_t left = m.d.size() - m.pos;
        switch(c.rng.below(3))
        {
            case 0: { c.op("get at %zu", m.pos); int r = in.get(); VF_REQ(r == m.at(m.pos), "get at %zu is %d", m.pos, r); if(left) ++m.pos; else m.st |= failb | eofb; break; }
            case 1: { size_t k = c.rng.below(12), w = std::min(k, left); Raw<char> b(k); c.op("read(%zu) at %zu", k, m.pos); in.read(b.data(), (estd::streamsize)k); VF_REQ(std::string(b.data(), w) == m.d.substr(m.pos, w) && in.gcount() == (long)w, "read(%zu) at %zu", k, m.pos); m.pos += w; if(w < k) m.st |= failb | eofb; break; }
            default: { Raw<char> b(100); std::string line; bool cut = true; c.op("getline at %zu", m.pos); while(m.pos < m.d.size()) { char ch = m.d[m.pos++]; if(ch == '\n') { cut = false; break; } line += ch; } in.getline(b.data(), 100); VF_REQ(std::string(b.data(), line.size()) == line && b[line.size()] == 0, "line is \"%s\", expected \"%s\"", esc(std::string(b.data(), line.size())).c_str(), esc(line).c_str()); if(cut) m.st |= eofb | (line.empty() ? failb : goodb); break; }
        }
        VF_REQ(in.rdstate() == m.st, "state is %d, expected %d", in.rdstate(), m.st); if(m.st) { in.clear(); m.st = goodb; } c.nt();
    }
    VF_EV("C stream");
}
