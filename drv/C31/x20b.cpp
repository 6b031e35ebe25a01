#define VF_PREFIX "late/"
#include "../C20/03_late.cpp"
