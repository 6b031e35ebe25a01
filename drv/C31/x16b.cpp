#define VF_PREFIX "charconv3/"
#include "../C16/d_3.cpp"
