#include "d_units.h"
using namespace un; using estd::ratio; using estd::kilo; using estd::milli; using estd::mega; using estd::deci;
#define CONV(n, A, B) VF_REG("convert " n, 60, convert<A, B>);
#define BOTH(n, A, B) CONV(n, A, B) VF_REG("combine " n, 60, combine<A, B>);
typedef hz<int32_t> h32; typedef hz<int64_t> h64; typedef hz<int64_t, milli> mh64; typedef hz<int32_t, kilo> kh32; typedef hz<uint32_t, mega> Mh32; typedef hz<int16_t, kilo> kh16; typedef hz<uint16_t, deci> dh16;
typedef hz<int32_t, ratio<1, 3>> t32;  typedef hz<int64_t, ratio<100, 1024>> adc; typedef hz<uint8_t, kilo> kh8;
BOTH("h64-mh64", h64, mh64)
BOTH("kh32-h64", kh32, h64)
BOTH("Mh32-mh64", Mh32, mh64)
BOTH("kh16-h32", kh16, h32)
BOTH("dh16-h32", dh16, h32)
BOTH("t32-h64", t32, h64)
BOTH("adc-h64", adc, h64)
BOTH("kh8-kh32", kh8, kh32)
CONV("h64-kh32", h64, kh32) CONV("mh64-kh16", mh64, kh16) CONV("h64-dh16", h64, dh16) CONV("h64-adc", h64, adc) CONV("adc-t32", adc, t32) CONV("h32-kh8", h32, kh8)
VF_REG("single h64", 60, single<h64>); VF_REG("single h32", 60, single<h32>); VF_REG("single mh64", 60, single<mh64>); VF_REG("single kh16", 60, single<kh16>); VF_REG("single kh8", 60, single<kh8>); VF_REG("single u16", 60, single<hz<uint16_t>>);
