#define VF_PREFIX "fixedmap/"
#include "../C30/d_map.cpp"
