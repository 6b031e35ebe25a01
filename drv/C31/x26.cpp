#define VF_PREFIX "alloc/"
#include "../C26/d_handle.cpp"
