#include "vectors_impl.h"
// positions and totals that 16 bits don't hold
VF_GROUP_W(far_positions, 2)
{
    typedef estd::layer1::vector<Tri, 66200> V; Boxed<V> b, b2; V& v = *b; std::vector<int> m; size_t n = 65800 + c.rng.below(300); std::vector<Tri> src; for(size_t i = 0; i < n; ++i) { int x = (int)c.rng.below(60000); m.push_back(x); src.push_back(Tri(x)); }
    if(c.rng.coin()) { size_t k = c.rng.below(n); v.append(src.data(), k); v.append(src.data() + k, n - k); } else v.assign(src.data(), src.data() + n);
    auto same = [&](const char* what) { VF_EQ((size_t)v.size(), m.size(), what); const Tri* d = v.clock(); for(size_t i = 0; i < m.size(); ++i) VF_REQ(num(d[i]) == m[i], "%s: element %zu is %d, expected %d", what, i, num(d[i]), m[i]); v.cunlock(); };
    same("filled far"); c.op("%zu elements", n);
    for(int s = 0; s < 12; ++s)
    {
        size_t k = 65537 + c.rng.below(m.size() - 65537); int x = (int)c.rng.below(60000);
        switch(c.rng.below(8))
        {
            case 0: { c.op("insert(%zu)", k); const Tri e(x); v.insert(v.begin() + k, e); m.insert(m.begin() + (long)k, x); break; }
            case 1: { c.op("insert(%zu, move)", k); v.insert(v.begin() + k, Tri(x)); m.insert(m.begin() + (long)k, x); break; }
            case 2: { c.op("insert(%zu, range)", k); std::vector<int> xs = { x, x + 1, x + 2 }; std::vector<Tri> q(xs.begin(), xs.end()); const Tri* f = q.data(); v.insert(v.begin() + k, f, f + 3); m.insert(m.begin() + (long)k, xs.begin(), xs.end()); break; }
            case 3: { c.op("erase(%zu)", k); auto it = v.erase(v.begin() + k); m.erase(m.begin() + (long)k); if(k < m.size()) VF_EQ(num((const Tri&)*it), m[k], "erase result"); break; }
            case 4: { c.op("pop_back"); v.pop_back(); m.pop_back(); break; }
            case 5: { c.op("push_back"); v.push_back(Tri(x)); m.push_back(x); break; }
            case 6: { c.op("[%zu]", k); VF_EQ(num((const Tri&)v[k]), m[k], "operator[]"); VF_EQ(num((const Tri&)v.at(k)), m[k], "at"); VF_EQ(num((const Tri&)v.back()), m.back(), "back"); VF_EQ(num((const Tri&)v.front()), m.front(), "front"); VF_EQ(num((const Tri&)*(v.begin() + k)), m[k], "iterator"); (Tri&)v[k] = Tri(x); m[k] = x; break; }
            default: { size_t at = 65537 + c.rng.below(m.size() - 65537); c.op("insert(%zu, own %zu)", at, k); v.insert(v.begin() + at, *(const Tri*)(v.lock() + k)); m.insert(m.begin() + (long)at, int(m[k])); }
        }
        same("far edit"); VF_EV("far edits");
    }
    V& d = *b2; d = v; VF_REQ(d == v, "a copy equals its source"); size_t k = 65537 + c.rng.below(m.size() - 65537); (Tri&)d[k] = Tri(m[k] ^ 1); VF_REQ(!(d == v), "equal despite element %zu", k); (Tri&)d[k] = Tri(m[k]); VF_REQ(d == v, "equal again");
    d.resize(m.size() - 65536); VF_REQ(!(d == v) && !(v == d), "equal despite sizes 65536 apart"); VF_EV("far comparisons"); c.nt(); c.mark(mix(n)); v.clear(); d.clear(); VF_REQ(v.empty() && v.size() == 0, "cleared");
}
