#include "d_units.h"
using namespace un;
typedef estd::layer1::ostringstream<96> os;
template <class P, class Tag> std::string suffix(bool abbrev);
template <class S> std::string text(S& s) { auto& x = s.rdbuf()->str(); std::string r; for(auto ch : x) r += ch; return r; }

template <class U> void print_int(Ctx& c, const char* name, const char* abbrev)
{
    typedef typename ut<U>::rep R; R v = gen<R>(c); U u(v);
    c.op("print %s", ws((wide)v).c_str()); c.nt(); c.mark((uint64_t)v);
    { os o; o << estd::put_unit(u); VF_REQ(text(o) == ws((wide)v) + abbrev, "put_unit wrote \"%s\"", text(o).c_str()); }
    { os o; o << estd::put_unit(u, false); VF_REQ(text(o) == ws((wide)v) + " " + name, "put_unit(false) wrote \"%s\"", text(o).c_str()); }
    { os o; eu::write_abbrev(o, u); VF_REQ(text(o) == ws((wide)v) + abbrev, "write_abbrev wrote \"%s\"", text(o).c_str()); }
    { os o; eu::write_abbrev(o, u, true); VF_REQ(text(o) == ws((wide)v) + " " + abbrev, "write_abbrev with space wrote \"%s\"", text(o).c_str()); }
    { os o; eu::write(o, u); VF_REQ(text(o) == ws((wide)v) + " " + name, "write wrote \"%s\"", text(o).c_str()); }
    VF_EV("integer units printed");
}
template <class U> void print_double(Ctx& c, const char* name, const char* abbrev)
{
    double v;
    switch(c.rng.below(5))
    {
        case 0: v = (double)c.rng.range(-300, 300) / 100.0; break;
        case 1: v = (double)c.rng.range(-1000000, 1000000) / 64.0; break;
        case 2: v = (double)c.rng.range(-100, 100); break;
        case 3: v = (double)c.rng.range(-1000000000000ll, 1000000000000ll) / 1024.0; break;
        default: v = (double)c.rng.range(-99, 99) / 100.0; break;
    }
    U u(v);
    c.op("print %f", v); c.nt(); c.mark((uint64_t)(int64_t)(v * 4096));
    for(int form = 0; form < 2; form++)
    {
        os o; if(form) o << estd::put_unit(u); else o << estd::put_unit(u, false);
        std::string t = text(o), suf = form ? std::string(abbrev) : std::string(" ") + name;
        VF_REQ(t.size() > suf.size() && t.compare(t.size() - suf.size(), suf.size(), suf) == 0, "%f printed as \"%s\"", v, t.c_str());
        t.resize(t.size() - suf.size());
        size_t i = t[0] == '-', dot = t.find('.');
        VF_REQ(dot != std::string::npos && dot > i && dot + 3 == t.size(), "%f printed as \"%s\"", v, t.c_str());
        for(size_t j = i; j < t.size(); j++) VF_REQ(j == dot || (t[j] >= '0' && t[j] <= '9'), "%f printed as \"%s\"", v, t.c_str());
        double back = strtod(t.c_str(), nullptr);
        VF_REQ(back - v < 0.010001 && v - back < 0.010001, "%f printed as \"%s\"", v, t.c_str());
        VF_REQ(!(t[0] == '-') || v < 0, "%f printed as \"%s\"", v, t.c_str());
        VF_EV("floating point units printed"); if(v < 0 && v > -1) VF_EV("printed between -1 and 0");
    }
}
template <class P> using hp = hz<int32_t, P>;
VF_GROUP_W(print_hz, 200)
{
    switch(c.rng.below(9))
    {
        case 0: print_int<hp<estd::ratio<1>>>(c, "hertz", "Hz"); break;
        case 1: print_int<hp<estd::kilo>>(c, "kilohertz", "kHz"); break;
        case 2: print_int<hp<estd::mega>>(c, "megahertz", "MHz"); break;
        case 3: print_int<hp<estd::tera>>(c, "terahertz", "THz"); break;
        case 4: print_int<hp<estd::milli>>(c, "millihertz", "mHz"); break;
        case 5: print_int<hp<estd::micro>>(c, "microhertz", "uHz"); break;
        case 6: print_int<hp<estd::nano>>(c, "nanohertz", "nHz"); break;
        case 7: print_int<hp<estd::giga>>(c, "gigahertz", "GHz"); break;
        default: if(c.rng.coin()) print_int<hp<estd::deci>>(c, "decihertz", "dHz"); else if(c.rng.coin()) print_int<hp<estd::deca>>(c, "decahertz", "daHz"); else print_int<hp<estd::centi>>(c, "centihertz", "cHz"); break;
    }
}
VF_GROUP_W(print_bytes, 150)
{
    switch(c.rng.below(5))
    {
        case 0: print_int<eu::bytes<unsigned>>(c, "bytes", "B"); break;
        case 1: print_int<eu::kilobytes<int64_t>>(c, "kilobytes", "kB"); break;
        case 2: print_int<eu::megabytes<uint16_t>>(c, "megabytes", "MB"); break;
        case 3: print_int<eu::gigabytes<int>>(c, "gigabytes", "GB"); break;
        default: print_int<eu::percent<int>>(c, "percent", "%"); break;
    }
}
VF_GROUP_W(print_doubles, 200)
{
    switch(c.rng.below(4))
    {
        case 0: print_double<eu::percent<double>>(c, "percent", "%"); break;
        case 1: print_double<hz<double>>(c, "hertz", "Hz"); break;
        case 2: print_double<eu::kilobytes<double>>(c, "kilobytes", "kB"); break;
        default: print_double<hz<double, estd::milli>>(c, "millihertz", "mHz"); break;
    }
}
