#define VF_PREFIX "hash/"
#include "../C24/d_hash.cpp"
