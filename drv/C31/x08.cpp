#define VF_PREFIX "maps/"
#include "../C08/d_maps0.cpp"
