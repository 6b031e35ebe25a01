#define VF_PREFIX "functions/"
#include "../C13/d_models.cpp"
