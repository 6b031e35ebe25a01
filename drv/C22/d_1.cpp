#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
#define PAIR(n, A, B) VF_REG("convert " n, 60, convert<A, B>); VF_REG("combine " n, 60, combine<A, B>);
PAIR("weeks-days", weeks, days)
PAIR("months-days", months, days)
PAIR("years-months", years, months)
PAIR("years-days", years, days)
PAIR("ms-days", milliseconds, days)
PAIR("weeks-us", weeks, microseconds)
PAIR("hours-minutes", hours, minutes)
PAIR("minutes-hours", minutes, hours)
