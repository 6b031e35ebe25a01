#include "d_expected.h"
using namespace opt;
EXP("<Tracked,int>", 80, COPY | FROMINT | ERRINT, Tracked, int);
EXP("<int,Tracked>", 80, COPY | DEFAULT | FROMINT | ERRINT, int, Tracked);
EXP("<Tracked,Tracked>", 80, COPY | FROMINT | ERRINT, Tracked, Tracked);
EXP("<Quiet,std::string>", 60, COPY | DEFAULT | FROMINT, Quiet, std::string);
EXP("<std::string,std::vector<int>>", 60, COPY | DEFAULT, std::string, std::vector<int>);
