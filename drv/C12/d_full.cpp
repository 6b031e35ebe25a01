#define FEATURE_ESTD_SPARSE_TUPLE 0
#include "d_tuple.h"
using namespace opt;
TUP("full<E0,E0,Tracked>", 40, false, true, E0, E0, Tracked);
TUP("full<std::vector<int>,char,Quiet,E1>", 40, false, true, std::vector<int>, char, Quiet, E1);
