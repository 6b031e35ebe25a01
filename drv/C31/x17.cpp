#define VF_PREFIX "facets/"
#include "../C17/d_n0.cpp"
