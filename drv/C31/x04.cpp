#define VF_PREFIX "vectors/"
#include "../C04/v1.cpp"
