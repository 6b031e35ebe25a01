#include "d_unordered.h"
L1(int, int, 16, estd::hash<int>, 60);
L1(int, Rec, 32, HSpread, 60);
L1(int, Tracked, 8, HId, 60);
L1(int, Tracked, 7, HSpread, 40);
L1(short, unsigned short, 100, HId, 20);
L1(OptKey, int, 16, HId, 40);
L1(int, Tracked, 64, HLast, 15);
