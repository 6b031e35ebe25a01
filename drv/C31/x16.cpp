#define VF_PREFIX "charconv/"
#include "../C16/d_0.cpp"
