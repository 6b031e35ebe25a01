#define VF_PREFIX "views/"
#include "../C03/views.cpp"
