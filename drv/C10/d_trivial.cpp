#include "d_variant.h"
using namespace opt;
VAR("<int,const char*>", 60, CONVERT | COPY | DEFAULT | UNIQUE, int, const char*);
VAR("<monostate,long long,char>", 40, COPY | DEFAULT | UNIQUE, estd::monostate, long long, char);
VAR("<char,double,short,int>", 40, COPY | DEFAULT | UNIQUE, char, double, short, int);
VAR("<int,int,int>", 50, COPY | DEFAULT, int, int, int);
VAR("<int>", 20, CONVERT | COPY | DEFAULT | UNIQUE, int);
VAR("<char,bool,char,int,signed char,double,long long,short>", 30, COPY | DEFAULT, char, bool, char, int, signed char, double, long long, short);
