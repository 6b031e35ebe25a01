#include "d_variant.h"
using namespace opt;
VAR("<Mono,Tracked,std::string>", 80, COPY | DEFAULT | UNIQUE, Mono, Tracked, std::string);
VAR("<const char*,Tracked>", 60, CONVERT | COPY | UNIQUE, const char*, Tracked);
VAR("<Quiet,std::vector<int>,Frozen>", 60, COPY | UNIQUE, Quiet, std::vector<int>, Frozen);
VAR("<Tracked,Tracked>", 60, COPY, Tracked, Tracked);
