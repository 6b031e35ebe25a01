#include "d_unordered.h"
L1(int, int, 16, HConst, 60);
L1(int, Tracked, 16, HFew, 80);
L1(int, Tracked, 16, HConst, 40);
L1(short, long long, 12, HSpread, 40);
L1(int, int, 256, HSpread, 10);
L1(OptKey, Str, 12, HFew, 40);
L1(int, int, 4, HZero, 20);
