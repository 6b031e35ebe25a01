#define VF_PREFIX "out/"
#include "../C18/01_sinks.cpp"
