#define VF_PREFIX "shared/"
#include "../C14/d_linked.cpp"
