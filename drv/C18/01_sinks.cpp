#include "d_os.h"
template <class Os, class Get> static void run(Ctx& c, Os& o, Get get, size_t room, unsigned maxw)
{
    Model m; m.nul = room == 10000; std::string want; int n = 1 + c.rng.below(25);
    while(n--)
    {
        if(want.size() + 60 > room) break;
        want += c.rng.chance(1, 6) ? act_strings(c, o, m) : act(c, o, m, maxw);
        std::string got = get();
        VF_REQ(got == want, "delivered \"%s\", expected \"%s\"", esc(got).c_str(), esc(want).c_str());
        check_state(c, o, m);
        c.nt();
        c.state(hash_bytes(&m, sizeof m));
    }
}
VF_GROUP_W(user_buffer, 400) { Tape<char> t; capstream<char> o(&t); run(c, o, [&] { return t.text; }, 10000, 15); }
VF_GROUP_W(referenced_buffer, 200) { Tape<char> t; capbuf<char> sb(&t); estd::detail::basic_ostream<capbuf<char>&> o(sb); run(c, o, [&] { return t.text; }, 10000, 15); }
VF_GROUP_W(virtual_buffer, 200) { vbuf b; estd::ostream o(&b); run(c, o, [&] { return b.t.text; }, 10000, 15); }
template <class B> static std::string sv(B* b) { auto& s = b->str(); std::string r; for(size_t i = 0; i < s.size(); ++i) r += (char)s[i]; return r; }
VF_GROUP_W(layer1_string, 300)
{
    if(c.rng.coin()) { estd::layer1::ostringstream<512> o; run(c, o, [&] { return sv(o.rdbuf()); }, 512, 15); }
    else { estd::layer1::ostringstream<512, false> o; run(c, o, [&] { return sv(o.rdbuf()); }, 512, 15); }
}
VF_GROUP_W(both_ways, 100) { estd::layer1::stringstream<512> o; run(c, o, [&] { return sv(o.rdbuf()); }, 512, 15); }
VF_GROUP_W(span_buffer, 200)
{
    Raw<char> box(400); memset(box.data(), 0x55, 400); estd::span<char> s(box.data(), 400); estd::detail::ospanstream o(s);
    run(c, o, [&] { size_t n = (size_t)(int)o.tellp(); for(size_t i = n; i < 400; ++i) VF_REQ(box[i] == 0x55, "byte %zu beyond the position %zu was written", i, n); return std::string(box.data(), n); }, 400, 15);
}
VF_GROUP_W(wrapped, 100)
{
    typedef estd::layer1::stringbuf<512> B; B sb; estd::experimental::wrapped_ostream<B&> o(sb);
    run(c, o, [&] { return sv(&sb); }, 512, 15);
}
// addresses are inserted as upper case hexadecimal
VF_GROUP_W(addresses, 100)
{
    Tape<char> t; capstream<char> o(&t); uintptr_t v = (uintptr_t)c.rng.edgy();
    c.op("<< (void*)%llx", (unsigned long long)v);
    o << (void*)v;
    VF_REQ(t.text == digits((uint64_t)v, 16, true), "address %llx printed as %s", (unsigned long long)v, t.text.c_str()); VF_EV("address"); c.nt();
}
