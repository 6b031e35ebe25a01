#define VF_PREFIX "lists/"
#include "../C15/d_owned.cpp"
