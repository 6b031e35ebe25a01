#define VF_PREFIX "queue/"
#include "../C05/d_queue.cpp"
