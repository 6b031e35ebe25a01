// buffers over C streams (in memory files) and the virtual wrapper
#include "d_sb.h"
VF_GROUP_W(posix_out, 100)
{
    char* mem = nullptr; size_t len = 0; FILE* f = open_memstream(&mem, &len); std::string want;
    { estd::posix_streambuf<char> sb(*f); int n = 1 + c.rng.below(15);
      while(n--) { if(c.rng.coin()) { char ch = any_char<char>(c, true); auto r = sb.sputc(ch); VF_REQ(r == (unsigned char)ch, "sputc returned %d", (int)r); want += ch; } else { auto s = any_text<char>(c, 20, true); auto r = sb.sputn(s.data(), (int)s.size()); VF_REQ((size_t)r == s.size(), "sputn returned %d", (int)r); want += s; }
        if(c.rng.chance(1, 4)) { int r = sb.pubsync(); VF_REQ(r == 0 && std::string(mem, len) == want, "after sync (%d) the file holds %zu of %zu characters", r, len, want.size()); VF_EV("file sync"); } c.nt(); } }
    fclose(f); std::string got(mem, len); free(mem); VF_REQ(got == want, "file holds \"%s\", expected \"%s\"", esc(got).c_str(), esc(want).c_str()); VF_EV("file output");
}
VF_GROUP_W(posix_in, 100)
{
    std::string data = any_text<char>(c, 50, true); if(data.empty()) data = "x"; FILE* f = fmemopen((void*)data.data(), data.size(), "r");
    struct Cl { FILE* f; ~Cl() { fclose(f); } } cl{f};
    estd::posix_streambuf<char> sb(*f); size_t pos = 0; int n = 1 + c.rng.below(30);
    while(n--)
    {
        int at = pos < data.size() ? (unsigned char)data[pos] : -1;
        switch(c.rng.below(4))
        {
            case 0: { c.op("sgetc"); int r = sb.sgetc(); VF_REQ(r == at, "sgetc at %zu is %d, expected %d", pos, r, at); break; }
            case 1: { c.op("sbumpc"); int r = sb.sbumpc(); VF_REQ(r == at, "sbumpc at %zu is %d, expected %d", pos, r, at); if(at != -1) ++pos; break; }
            case 2: { c.op("snextc"); int r = sb.snextc(); int w = at == -1 ? -1 : pos + 1 < data.size() ? (unsigned char)data[pos + 1] : -1; VF_REQ(r == w, "snextc at %zu is %d, expected %d", pos, r, w); if(at != -1) ++pos; break; }
            default: { size_t k = c.rng.below(10); Raw<char> b(k); c.op("sgetn(%zu)", k); auto r = sb.sgetn(b.data(), (int)k); size_t w = std::min(k, data.size() - pos); VF_REQ((size_t)r == w && std::string(b.data(), w) == data.substr(pos, w), "sgetn(%zu) at %zu returned %d", k, pos, (int)r); pos += w; }
        }
        c.nt();
    }
    VF_EV("file input");
}
VF_GROUP_W(virtual_wrapper, 100)
{
    typedef estd::layer1::stringbuf<300> B; B back; estd::internal::basic_streambuf_wrapped<B&> w(back); estd::basic_streambuf<char>& sb = w; std::string want; int n = 1 + c.rng.below(20);
    while(n--)
    {
        switch(c.rng.below(3))
        {
            case 0: { char ch = any_char<char>(c, false); auto r = sb.sputc(ch); VF_REQ(r == (unsigned char)ch, "sputc returned %d", (int)r); want += ch; break; }
            case 1: { auto s = any_text<char>(c, 10, false); auto r = sb.sputn(s.data(), (int)s.size()); VF_REQ((size_t)r == s.size(), "sputn returned %d", (int)r); want += s; break; }
            default: { int r = sb.pubsync(); VF_REQ(r == 0, "sync returned %d", r); }
        }
        std::string got; auto& s = back.str(); for(size_t i = 0; i < s.size(); ++i) got += s[i];
        VF_REQ(got == want, "wrapped buffer holds \"%s\", expected \"%s\"", esc(got).c_str(), esc(want).c_str()); c.nt();
    }
    VF_EV("virtual wrapper");
}
