#define VF_PREFIX "buffers/"
#include "../C19/01_span.cpp"
