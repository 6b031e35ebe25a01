#include "d_chrono.h"
using namespace ch; using namespace estd::chrono;
#define PAIR(n, A, B) VF_REG("convert " n, 60, convert<A, B>); VF_REG("combine " n, 60, combine<A, B>);
using estd::ratio; using estd::milli;
typedef duration<int8_t, milli> i8ms; typedef duration<uint8_t, ratio<60>> u8m; typedef duration<uint8_t, ratio<1>> u8s; typedef duration<int16_t, milli> i16ms; typedef duration<uint16_t, milli> u16ms;
typedef duration<int16_t> i16s; typedef duration<int16_t, ratio<60>> i16m; typedef duration<uint32_t, milli> u32ms; typedef duration<int32_t, milli> i32ms; typedef duration<uint32_t> u32s; typedef duration<uint16_t, estd::centi> u16cs;
PAIR("i8ms-i16s", i8ms, i16s)
PAIR("i8ms-ms", i8ms, milliseconds)
PAIR("u8m-u8s", u8m, u8s)
PAIR("i16m-i16s", i16m, i16s)
PAIR("u16ms-i16ms", u16ms, i16ms)
PAIR("u32ms-i32ms", u32ms, i32ms)
PAIR("u32s-u32ms", u32s, u32ms)
PAIR("u16cs-i16s", u16cs, i16s)
PAIR("u8s-i16ms", u8s, i16ms)
PAIR("u8m-s", u8m, seconds)
typedef duration<uint64_t, milli> u64ms; typedef duration<uint64_t> u64s;
VF_REG("convert u64s-u64ms", 60, convert<u64s, u64ms>);
VF_REG("convert u64ms-u64s", 60, convert<u64ms, u64s>);
VF_REG("convert u64ms-ms", 60, convert<u64ms, milliseconds>);
VF_REG("single i8", 40, single<i8ms>); VF_REG("single u8", 40, single<u8m>); VF_REG("single i16", 40, single<i16ms>); VF_REG("single u16", 40, single<u16ms>);
VF_REG("single i32", 40, single<i32ms>); VF_REG("single u32", 40, single<u32ms>); VF_REG("single i64", 40, single<seconds>); VF_REG("single years", 40, single<years>);
