#include "d_os.h"
// writes past 65535 characters, whole or in parts
VF_GROUP_W(far, 6)
{
    size_t n = 65536 + c.rng.below(70000); std::string t(n, 0); for(size_t i = 0; i < n; ++i) t[i] = (char)(' ' + (i * 7 + i / 251) % 90);
    switch(c.rng.below(3))
    {
        case 0: { Tape<char> o_; capstream<char> o(&o_); c.op("write(%zu)", n); o.write(t.data(), (estd::streamsize)n); VF_REQ(o.good() && o_.text == t, "wrote %zu of %zu, state %d", o_.text.size(), n, (int)o.rdstate()); o << 7; VF_REQ(o_.text == t + "7", "insertion after %zu characters", n); break; }
        case 1: { Raw<char> box(140000); estd::span<char> s(box.data(), 140000); estd::detail::ospanstream o(s); c.op("span write(%zu)", n); o.write(t.data(), (estd::streamsize)n); o << 42; VF_REQ(o.good() && (size_t)(long)o.tellp() == n + 2 && memcmp(box.data(), t.data(), n) == 0 && memcmp(box.data() + n, "42", 2) == 0, "wrote %ld of %zu", (long)o.tellp(), n); break; }
        default: { Boxed<estd::layer1::ostringstream<140000> > o; c.op("string write(%zu)", n); o->write(t.data(), (estd::streamsize)n); *o << "end"; auto& s = o->rdbuf()->str(); VF_EQ((size_t)s.size(), n + 3, "written"); VF_REQ(o->good() && memcmp(s.clock(), t.data(), n) == 0 && memcmp(s.clock() + n, "end", 3) == 0, "content of %zu characters", n); s.cunlock(); }
    }
    VF_EV("far writes"); c.nt(); c.mark(n);
}
