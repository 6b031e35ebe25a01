#define VF_PREFIX "heap/"
#include "../C06/d_heap.cpp"
