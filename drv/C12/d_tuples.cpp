#include "d_tuple.h"
using namespace opt;
TUP("tuple<int>", 20, true, true, int);
TUP("tuple<Tracked>", 40, true, true, Tracked);
TUP("tuple<int,double,short>", 40, true, true, int, double, short);
TUP("tuple<Tracked,Tracked,Tracked>", 60, true, true, Tracked, Tracked, Tracked);
TUP("tuple<char,Wide,std::string,E0,Tracked>", 80, true, true, char, Wide, std::string, E0, Tracked);
TUP("tuple<E0,E0,int,E1,E0>", 40, true, true, E0, E0, int, E1, E0);
TUP("tuple<Tracked,Uniq,E2,Uniq>", 60, true, false, Tracked, Uniq, E2, Uniq);
