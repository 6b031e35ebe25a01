#define VF_PREFIX "bits/"
#include "../C24/d_bits.cpp"
