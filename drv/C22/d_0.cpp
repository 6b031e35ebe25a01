#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
#define PAIR(n, A, B) VF_REG("convert " n, 60, convert<A, B>); VF_REG("combine " n, 60, combine<A, B>);
PAIR("ns-us", nanoseconds, microseconds)
PAIR("us-ms", microseconds, milliseconds)
PAIR("s-ms", seconds, milliseconds)
PAIR("s-ns", seconds, nanoseconds)
PAIR("min-s", minutes, seconds)
PAIR("s-s", seconds, seconds)
PAIR("h-ms", hours, milliseconds)
PAIR("days-min", days, minutes)
