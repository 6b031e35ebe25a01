#define VF_PREFIX "chrono/"
#include "../C22/d_1.cpp"
