#define VF_PREFIX "ctype/"
#include "../C17/d_ctype.cpp"
