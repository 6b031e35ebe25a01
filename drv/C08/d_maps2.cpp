#include "d_unordered.h"
L1(int, int, 16, HZero, 30);
L1(int, Tracked, 24, HSpread, 60);
L1(int, int, 10, HId, 60);
L1(long long, Tracked, 20, HId, 40);
L1(int, Tracked, 128, HId, 15);
L1(int, Str, 16, estd::hash<int>, 60);
