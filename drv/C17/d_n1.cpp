#include "d_num.h"
VF_REG("num_get int", 60, ng::integers<int>);
VF_REG("num_get unsigned", 60, ng::integers<unsigned>);
