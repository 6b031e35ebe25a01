#define VF_PREFIX "in/"
#include "../C20/01_span.cpp"
