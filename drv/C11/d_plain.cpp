#include "d_expected.h"
using namespace opt;
EXP("<int,errc>", 60, COPY | DEFAULT | FROMINT, int, estd::errc);
EXP("<int,int>", 60, COPY | DEFAULT | FROMINT | ERRINT, int, int);
EXP("<void,errc>", 40, COPY | DEFAULT, void, estd::errc);
EXP("<void,Tracked>", 50, COPY | DEFAULT | ERRINT, void, Tracked);
EXP("<signed char,double>", 40, COPY | DEFAULT | FROMINT | ERRINT, signed char, double);
EXP("<double,const char*>", 40, COPY | DEFAULT | FROMINT, double, const char*);
EXP("<Wide,short>", 40, COPY | FROMINT, Wide, short);
