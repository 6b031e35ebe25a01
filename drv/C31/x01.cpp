#define VF_PREFIX "edit/"
#include "../C01/edit.cpp"
