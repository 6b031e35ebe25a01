#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
#define PAIR(n, A, B) VF_REG("convert " n, 60, convert<A, B>); VF_REG("combine " n, 60, combine<A, B>);
using estd::ratio;
typedef duration<int32_t, ratio<1, 15>> f15; typedef duration<int32_t, ratio<1, 7>> f7; typedef duration<int32_t, ratio<4, 3>> f43; typedef duration<int64_t, ratio<7, 5>> f75;
typedef duration<int64_t, ratio<1, 1024>> b10; typedef duration<int32_t, ratio<10, 25>> f1025;
PAIR("f15-s", f15, seconds)
PAIR("f15-ms", f15, milliseconds)
PAIR("f7-f43", f7, f43)
PAIR("f43-f75", f43, f75)
PAIR("b10-ms", b10, milliseconds)
PAIR("min-f75", minutes, f75)
PAIR("f15-f7", f15, f7)
PAIR("b10-f43", b10, f43)
VF_REG("convert 10/25-ms", 60, convert<f1025, milliseconds>);
VF_REG("convert f75-10/25", 60, convert<f75, f1025>);
VF_REG("combine 10/25-s", 60, combine<f1025, seconds>);
