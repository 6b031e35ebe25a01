// settings, state flags, unit buffering and failures of the underlying buffer
#include "d_os.h"
VF_GROUP_W(state_machine, 200)
{
    Tape<char> t; capstream<char> o(&t); Model m; int n = 1 + c.rng.below(20);
    while(n--)
    {
        auto s = (ib::iostate)c.rng.below(16);
        switch(c.rng.below(4))
        {
            case 0: c.op("setstate(%x)", s); o.setstate(s); m.st |= s; break;
            case 1: c.op("clear(%x)", s); o.clear(s); m.st = s; break;
            case 2: c.op("clear()"); o.clear(); m.st = 0; break;
            default: { auto f = (ib::fmtflags)c.rng.below(256), k = (ib::fmtflags)c.rng.below(256); c.op("setf(%x,%x)", f, k); auto old = o.setf(f, k); VF_REQ(old == m.fl, "setf returned %x, flags were %x", old, m.fl); m.fl = (ib::fmtflags)((m.fl & ~k) | (f & k)); }
        }
        VF_REQ(o.flags() == m.fl && o.rdstate() == m.st, "flags %x state %x, expected %x %x", o.flags(), o.rdstate(), m.fl, m.st);
        VF_REQ(o.good() == (m.st == 0) && o.bad() == bool(m.st & ib::badbit) && o.fail() == bool(m.st & (ib::badbit | ib::failbit)) && o.eof() == bool(m.st & ib::eofbit) && bool(o) == !o.fail(), "state queries disagree with state %x", m.st);
        VF_EV("state change"); c.nt(); c.state(m.st * 256 + m.fl);
    }
}
template <class Os> static void fail_run(Ctx& c, Os& o, Tape<char>& t)
{
    t.limit = c.rng.below(40); Model m; std::string want; int n = 1 + c.rng.below(20);
    while(n--)
    {
        o.clear(); t.refused = 0;
        std::string before = t.text;
        std::string w = c.rng.chance(1, 6) ? act_strings(c, o, m) : act(c, o, m, 15);
        VF_REQ(t.text.size() <= t.limit, "harness");
        std::string got = t.text.substr(before.size());
        VF_REQ(before == t.text.substr(0, before.size()), "earlier output changed");
        if(before.size() + w.size() <= t.limit) { VF_REQ(got == w, "delivered \"%s\", expected \"%s\"", esc(got).c_str(), esc(w).c_str()); VF_REQ(o.good(), "state %x although everything was accepted", o.rdstate()); }
        else { VF_EV("refused by the buffer"); c.nt(); VF_REQ(o.fail() && !o, "the buffer refused output but the stream reports state %x", o.rdstate()); VF_REQ(w.compare(0, got.size(), got) == 0, "delivered \"%s\", not a beginning of \"%s\"", esc(got).c_str(), esc(w).c_str()); break; }
    }
}
VF_GROUP_W(limited_buffer, 300) { Tape<char> t; capstream<char> o(&t); fail_run(c, o, t); }
VF_GROUP_W(limited_virtual, 100) { vbuf b; estd::ostream o(&b); fail_run(c, o, b.t); }
VF_GROUP_W(unit_buffering, 200)
{
    Tape<char> t; capstream<char> o(&t); Model m; estd::unitbuf(o); m.fl |= ib::unitbuf; VF_REQ(o.flags() & ib::unitbuf, "unitbuf did not set the flag");
    int n = 1 + c.rng.below(15); bool on = true;
    while(n--)
    {
        if(c.rng.chance(1, 8)) { on = !on; c.op("unitbuf %d", on); if(on) estd::unitbuf(o); else estd::nounitbuf(o); m.fl = on ? m.fl | ib::unitbuf : m.fl & ~ib::unitbuf; }
        unsigned sy = t.syncs; size_t len = t.text.size();
        int v = (int)c.rng.range(-5000, 5000); bool flush = false;
        switch(c.rng.below(7))
        {
            case 5: c.op("put"); o.put((char)v); break;
            case 6: { char w[] = "some text"; size_t k = c.rng.below(9); c.op("write(%zu)", k); o.write(w, k); break; }
            case 0: c.op("<< %d", v); o << v; break; case 1: c.op("<< text"); o << "text"; break; case 2: c.op("<< 'c'"); o << 'c'; break;
            case 3: c.op("endl"); o << estd::endl; flush = true; break; default: c.op("flush"); o.flush(); flush = true; break;
        }
        if(on || flush) { VF_REQ(t.syncs > sy && t.synced == t.text.size(), "%zu of %zu characters synchronised after an insertion with unit buffering or a flush", t.synced, t.text.size()); VF_EV("synchronised"); c.nt(); }
        else VF_REQ(t.syncs == sy, "insertion without unit buffering synchronised the buffer");
        (void)len; VF_REQ(o.flags() == m.fl, "flags %x expected %x", o.flags(), m.fl);
    }
    t.sync_fails = true; c.op("failing flush"); o.clear(); o.flush(); VF_REQ(o.bad(), "a failed synchronisation left state %x", o.rdstate()); VF_EV("failed flush");
}
// positions over a span
VF_GROUP_W(positions, 200)
{
    unsigned cap = 20 + c.rng.below(60); Raw<char> box(cap); memset(box.data(), '.', cap); estd::span<char> s(box.data(), cap); estd::detail::ospanstream o(s);
    std::string want(cap, '.'); size_t pos = 0; int n = 1 + c.rng.below(20);
    while(n--)
    {
        if(c.rng.coin())
        {
            std::string w = digits((int)c.rng.range(-999, 999), 10, false); if(pos + w.size() > cap) continue;
            c.op("<< %s at %zu", w.c_str(), pos); o << w.c_str(); want.replace(pos, w.size(), w); pos += w.size();
        }
        else
        {
            size_t to = c.rng.below(cap + 1);
            if(c.rng.chance(1, 5))
            {
                int bad = c.rng.coin() ? -1 - (int)c.rng.below(300) : (int)cap + 1 + (int)c.rng.below(300); c.op("seekp to %d of %u", bad, cap);
                switch(c.rng.below(3)) { case 0: o.seekp(bad, ib::beg); break; case 1: o.seekp(bad - (int)pos, ib::cur); break; default: o.seekp(bad - (int)cap, ib::end); }
                VF_REQ(o.fail() && !o.bad(), "a seek to %d of %u left state %x", bad, cap, o.rdstate()); o.clear(); to = pos; VF_EV("refused seek");
            }
            else if(c.rng.chance(1, 4)) { c.op("seekp(%d, end)", (int)to - (int)cap); o.seekp((int)to - (int)cap, ib::end); }
            else if(c.rng.coin()) { c.op("seekp(%zu, beg)", to); auto& r = o.seekp((int)to, ib::beg); VF_REQ((void*)&r == (void*)&o, "seekp returned another stream"); }
            else { c.op("seekp(%d, cur)", (int)to - (int)pos); auto& r = o.seekp((int)to - (int)pos, ib::cur); VF_REQ((void*)&r == (void*)&o, "seekp returned another stream"); }
            pos = to; VF_EV("seek"); c.nt();
        }
        VF_REQ(o.good(), "state %x", o.rdstate());
        VF_REQ((size_t)(int)o.tellp() == pos, "tellp is %d, expected %zu", (int)o.tellp(), pos);
        VF_REQ(std::string(box.data(), cap) == want, "buffer \"%s\", expected \"%s\"", std::string(box.data(), cap).c_str(), want.c_str());
    }
    o.setstate(ib::failbit); VF_REQ((int)o.tellp() == -1, "tellp of a failed stream is %d", (int)o.tellp());
}
