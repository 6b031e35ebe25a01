#include "d_is.h"
// counts past 65535
VF_GROUP_W(far, 6)
{
    size_t n = 66000 + c.rng.below(80000); std::string t(n, 'x'); for(size_t i = 0; i < n; i += 1 + c.rng.below(9)) t[i] = (char)('a' + c.rng.below(26)); size_t nl = 65530 + c.rng.below(n - 65530); t[nl] = '\n'; Raw<char> box(n); memcpy(box.data(), t.data(), n);
    estd::span<const char> sp(box.data(), n); estd::detail::basic_ispanstream<const char> in(sp); size_t pos = 0; c.op("%zu characters, line ends at %zu", n, nl);
    for(int s = 0; s < 8; ++s)
    {
        size_t left = n - pos; long gc = -1; Raw<char> b(n + 20);
        switch(c.rng.below(6))
        {
            case 0: { size_t k = c.rng.coin() ? left : c.rng.below(left + 1); c.op("read(%zu) at %zu", k, pos); in.read(b.data(), (estd::streamsize)k); VF_REQ(memcmp(b.data(), t.data() + pos, k) == 0, "read(%zu) at %zu: other characters", k, pos); pos += k; gc = (long)k; break; }
            case 1: { c.op("readsome at %zu", pos); long r = (long)in.readsome(b.data(), (estd::streamsize)(left + 20)); VF_REQ((size_t)r == left && memcmp(b.data(), t.data() + pos, left) == 0, "readsome with %zu available returned %ld", left, r); pos = n; gc = r; in.clear(); break; }
            case 2: { if(pos > nl) break; size_t k = nl - pos; c.op("getline at %zu", pos); in.getline(b.data(), (estd::streamsize)(k + 1 + c.rng.below(15))); VF_REQ(in.good(), "state %d after getline", (int)in.rdstate()); VF_REQ(memcmp(b.data(), t.data() + pos, k) == 0 && b[k] == 0, "getline at %zu of %zu", pos, k); pos = nl + 1; gc = (long)k + 1; if(k > 65535) VF_EV("far lines"); break; }
            case 3: { size_t k = c.rng.below(left + 1); c.op("ignore(%zu) at %zu", k, pos); in.ignore((estd::streamsize)k); pos += k; gc = (long)k; if(k > 65535) VF_EV("far ignores"); break; }
            case 4: { if(pos > nl) break; c.op("ignore until the line's end"); in.ignore((estd::streamsize)n * 2, '\n'); gc = (long)(nl + 1 - pos); pos = nl + 1; break; }
            default: { size_t k = c.rng.below(n); c.op("seekg(%zu)", k); in.seekg((long)k, estd::ios_base::beg); pos = k; }
        }
        if(gc >= 0) { VF_EQ((long)in.gcount(), gc, "gcount"); if(gc > 65535) VF_EV("far counts"); }
        VF_REQ(!in.fail(), "state %d at %zu", (int)in.rdstate(), pos); VF_EQ((size_t)in.rdbuf()->in_avail(), pos == n ? (size_t)in.rdbuf()->in_avail() : n - pos, "in_avail");
        if(pos < n) VF_EQ((int)in.rdbuf()->sgetc(), (int)(unsigned char)t[pos], "next character"); else { in.clear(); in.seekg(0, estd::ios_base::beg); pos = 0; }
    }
    c.nt(); c.mark(mix(n * 7 + nl));
}
