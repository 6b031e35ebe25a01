#define VF_PREFIX "tuples/"
#include "../C12/d_tuples.cpp"
